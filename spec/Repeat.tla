-------------------------------- MODULE Repeat --------------------------------
(***************************************************************************)
(* One search with a single worker (C22).  The main process submits          *)
(* candidates and draws the next one from its random numbers and the results *)
(* it has taken; the worker evaluates jobs first in, first out, and may be   *)
(* any number of results ahead of the main process.                          *)
(*   s = [inq, outq, taken, draws, work]                                     *)
(* Score and Draw stand for any deterministic functions.                     *)
(***************************************************************************)
EXTENDS Util
Score(job, n) == (job * 3 + n) % 5
Draw(n, taken) == (n * 2 + SumSeq([k \in DOMAIN taken |-> taken[k][2]])) % 7
RECURSIVE Drawn(_, _)
Drawn(n, seq) == IF n = 0 THEN seq ELSE Drawn(n - 1, Append(seq, Draw(Len(seq), <<>>)))
Begin(starts) == [inq |-> Drawn(starts, <<>>), outq |-> <<>>, taken |-> <<>>, draws |-> starts, work |-> 0]
CanWork(s, workers) == s.inq # <<>>
(* with one worker jobs finish in order; with more, any of the first ones may *)
Work(s, k) == [s EXCEPT !.outq = Append(@, <<s.inq[k], Score(s.inq[k], s.work)>>), !.work = @ + 1,
                         !.inq = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
CanTake(s) == s.outq # <<>>
(* take a result; draw a new candidate when few are left *)
Take(s, spare) ==
  LET t == Append(s.taken, Head(s.outq))
      open == s.draws - Len(t) IN
  [s EXCEPT !.taken = t, !.outq = Tail(@),
            !.inq = IF open <= spare THEN Append(@, Draw(s.draws, t)) ELSE @,
            !.draws = IF open <= spare THEN @ + 1 ELSE @]
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Agree(a, b) == IsPrefix(a, b) \/ IsPrefix(b, a)
===============================================================================
