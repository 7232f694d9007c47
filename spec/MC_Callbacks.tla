----------------------------- MODULE MC_Callbacks -----------------------------
(* As implemented: for each completed evaluation with a result the subscribers are
   called one by one; after each, errors are dropped and the clock is compared to
   the limit.  Each callback moves the clock by an amount. *)
EXTENDS Callbacks
CONSTANTS N, MaxDone, Behaviours, Times
VARIABLES done, queue, cur, k, got, late, ended, h
vars == <<done, queue, cur, k, got, late, ended, h>>
Init == done = 0 /\ queue = <<>> /\ cur = 0 /\ k = 0 /\ got = [c \in 1..N |-> <<>>] /\ late = -1 /\ ended = FALSE /\ h = <<>>
Complete == /\ ~ended /\ cur = 0 /\ done < MaxDone
            /\ \E bs \in [1..N -> Behaviours], ts \in [1..N -> Times] :
                 h' = Append(h, [op |-> "result", bs |-> bs, ts |-> ts])
            /\ done' = done + 1 /\ cur' = done + 1 /\ k' = 1 /\ UNCHANGED <<queue, got, late, ended>>
Raised == /\ ~ended /\ cur = 0 /\ done < MaxDone /\ h' = Append(h, [op |-> "exception"])
          /\ done' = done + 1 /\ UNCHANGED <<queue, cur, k, got, late, ended>>
Call == /\ cur # 0 /\ LET e == h[Len(h)] IN
          /\ got' = [got EXCEPT ![k] = Append(@, cur)]
          /\ late' = late + e.ts[k]
          /\ IF Stops(e.bs[k], late + e.ts[k]) THEN ended' = TRUE /\ cur' = 0 /\ k' = 0
             ELSE /\ ended' = FALSE /\ IF k = N THEN cur' = 0 /\ k' = 0 ELSE k' = k + 1 /\ cur' = cur
          /\ UNCHANGED <<done, queue, h>>
Next == Complete \/ Raised \/ Call
Results == SelectSeq([j \in DOMAIN h |-> j], LAMBDA j : h[j].op = "result")
IsPrefix2(a, b) == Len(a) <= Len(b) /\ \A j \in DOMAIN a : a[j] = b[j]
(* every callback has seen exactly the results so far, once and in order, except that the
   evaluation in progress, or that during which the search ended, may not have reached it yet *)
SeenAll == \A c \in 1..N :
  /\ IsPrefix2(got[c], Results)
  /\ Len(got[c]) >= Len(Results) - (IF cur # 0 \/ ended THEN 1 ELSE 0)
  /\ (~ended /\ cur = 0) => got[c] = Results
InOrder == \A c \in 2..N : Len(got[c]) <= Len(got[c - 1])
Emit == ((ended' /\ ~ended) \/ (cur' = 0 /\ done' = MaxDone /\ (cur # 0 \/ h' # h))) => EmitPath(h')
=============================================================================
