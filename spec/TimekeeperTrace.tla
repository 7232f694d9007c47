-------------------------- MODULE TimekeeperTrace --------------------------
(* A real time keeper under a virtual clock; every event is followed by a full
   observation.  run: total. *)
EXTENDS Timing, TraceUtil
VARIABLES r, i, st
Start(run) == [total |-> run.total, now |-> 0, acts |-> <<>>]
Obs(s, e) ==
  LET c == Current(s.acts) IN
  Clause("total remaining is the total minus all time spent in activities",
    IF s.total < 0 THEN e.remaining = "RuntimeError" ELSE e.remaining = ToString(Remaining(s.total, s.acts, s.now)))
  \cup Clause("elapsed time of the current activity is exact, and an error if there is none",
    e.elapsed = IF c = 0 THEN "RuntimeError" ELSE ToString(Elapsed(s.acts[c], s.now)))
  \cup Clause("time left of the current activity is its limit minus its elapsed time, and an error without one",
    e.left = IF c = 0 THEN "RuntimeError" ELSE IF s.acts[c].limit < 0 THEN "RuntimeError" ELSE ToString(s.acts[c].limit - Elapsed(s.acts[c], s.now)))
  \cup Clause("every activity is kept with the time it took", e.each = [k \in DOMAIN s.acts |-> Elapsed(s.acts[k], s.now)])
  \cup Clause("a limit is exceeded exactly when more than the margin has passed since",
    e.exceeded = [k \in DOMAIN s.acts |-> <<Exceeded(s.acts[k], s.now, 0), Exceeded(s.acts[k], s.now, 12)>>])
  \cup Clause("an error ending an activity is passed on", e.passed)
Next_(s, e) ==
  CASE e.op = "pass" -> [s EXCEPT !.now = @ + e.d]
    [] e.op = "start" -> [s EXCEPT !.acts = Begin(@, s.now, e.limit)]
    [] e.op = "stop" -> [s EXCEPT !.acts = Finish(@, s.now)]
    [] OTHER -> s
Fails(s, e) == IF e.op \in {"pass", "start", "stop"} THEN Obs(Next_(s, e), e) ELSE {"the time keeper answers"}
Apply(s, e) == Next_(s, e)
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
