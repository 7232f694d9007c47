------------------------------- MODULE Timing -------------------------------
(***************************************************************************)
(* Time budgets (C13).  Times are in quarter seconds.  A time keeper is a    *)
(* clock, a total and a list of activities [start, stop (-1: running),       *)
(* limit (-1: none)].                                                        *)
(***************************************************************************)
EXTENDS Util
Running(a) == a.stop < 0
Elapsed(a, now) == (IF Running(a) THEN now ELSE a.stop) - a.start
AllElapsed(acts, now) == SumSeq([k \in DOMAIN acts |-> Elapsed(acts[k], now)])
Remaining(total, acts, now) == total - AllElapsed(acts, now)
Current(acts) == IF acts # <<>> /\ Running(acts[Len(acts)]) THEN Len(acts) ELSE 0
Begin(acts, now, limit) == Append(acts, [start |-> now, stop |-> -1, limit |-> limit])
Finish(acts, now) == [acts EXCEPT ![Len(acts)].stop = now]
(* limit exceeded by more than a margin *)
Exceeded(a, now, margin) == a.limit >= 0 /\ a.limit - Elapsed(a, now) < -margin
Min2(a, b) == IF a < b THEN a ELSE b
(* What phases of a fit may take.  f: per mille reserved for post-processing. *)
SearchLimitOK(limit, remaining, f) ==
  /\ 1000 * limit <= (1000 - f) * remaining
  /\ 1000 * limit >= (1000 - f) * remaining - 4000     \* whole seconds: up to one second less
EvalDefaultOK(e, total) == IF total >= 40 THEN 10 * e >= total - 20 /\ 10 * e <= total + 20 ELSE e = Min2(4, total)
EvalLimit(maxeval, end, now) == Min2(maxeval, end - now)
=============================================================================
