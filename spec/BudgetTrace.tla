----------------------------- MODULE BudgetTrace -----------------------------
(* Recorded phases of real fits under a virtual clock.  run: total, maxeval (-1: default), f. *)
EXTENDS Timing, TraceUtil
VARIABLES r, i, st
Start(run) == [total |-> run.total, maxeval |-> run.maxeval, f |-> run.f, spent |-> 0, end |-> 0, ph |-> "idle", eval |-> -1]
Left(s) == s.total - s.spent
LimitOfEval(s, t) ==
  (* the configured maximum never exceeds the total; a default is a tenth *)
  IF s.maxeval >= 0 THEN t = EvalLimit(Min2(s.maxeval, s.total), s.end, s.spent)
  ELSE \/ t = s.end - s.spent /\ (\E m \in 0..s.total : EvalDefaultOK(m, s.total) /\ m >= t)
       \/ EvalDefaultOK(t, s.total) /\ t <= s.end - s.spent
Fails(s, e) ==
  CASE e.op = "fit" -> {}
    [] e.op = "pre" -> {}
    [] e.op = "search" ->
         Clause("search starts only while time remains", Left(s) >= 0)
         \cup Clause("search gets the remaining time minus the fraction reserved for post-processing",
                     SearchLimitOK(e.limit, Left(s), s.f))
    [] e.op = "pass" -> {}
    [] e.op = "eval" ->
         Clause("an evaluation may take the maximum evaluation time, but not past the end of the search", LimitOfEval(s, e.timeout))
         \cup Clause("the recorded duration of an evaluation is the time it took", e.duration = e.d)
    [] e.op = "post" ->
         Clause("post-processing gets what is then left of the total", e.timeout = Left(s))
    [] e.op = "done" -> Clause("fit ends normally", s.ph = "post")
    [] e.op = "error" ->
         Clause("fit fails only for lack of time or an error of its search",
                (s.ph = "pre" /\ Left(s) < 0 /\ e.error = "RuntimeError") \/ (s.ph = "search" /\ e.error = "Scripted"))
    [] e.op = "cut" -> \* real time, in quarter seconds
         Clause("a search that does not end is ended at its limit", e.took >= e.limit - 2 /\ e.took <= e.limit + e.slack)
    [] e.op = "longeval" ->
         Clause("an evaluation that takes longer than allowed fails and ends in time", e.failed /\ e.took <= e.limit + e.slack)
    [] OTHER -> {"fit runs"}
Apply(s, e) ==
  CASE e.op = "fit" -> [s EXCEPT !.spent = 0, !.ph = "idle"]
    [] e.op = "pre" -> [s EXCEPT !.spent = @ + e.d, !.ph = "pre"]
    [] e.op = "search" -> [s EXCEPT !.end = s.spent + e.limit, !.ph = "search"]
    [] e.op \in {"pass", "eval"} -> [s EXCEPT !.spent = @ + e.d]
    [] e.op = "post" -> [s EXCEPT !.ph = "post"]
    [] OTHER -> s
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
