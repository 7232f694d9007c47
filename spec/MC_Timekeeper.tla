---------------------------- MODULE MC_Timekeeper ----------------------------
(* Activities begin, last, and end (normally or by an error); remaining time is
   computed as implemented: the total minus the sum over stopwatches. *)
EXTENDS Timing
CONSTANTS Total, MaxLen, Steps, Limits
VARIABLES now, acts, h
vars == <<now, acts, h>>
Init == now = 0 /\ acts = <<>> /\ h = <<>>
More == Len(h) < MaxLen
Pass == More /\ \E d \in Steps : now' = now + d /\ h' = Append(h, [op |-> "pass", d |-> d]) /\ UNCHANGED acts
Start == More /\ Current(acts) = 0 /\ \E l \in Limits \cup {-1} :
           acts' = Begin(acts, now, l) /\ h' = Append(h, [op |-> "start", limit |-> l]) /\ UNCHANGED now
Stop == More /\ Current(acts) # 0 /\ \E err \in BOOLEAN :
           acts' = Finish(acts, now) /\ h' = Append(h, [op |-> "stop", error |-> err]) /\ UNCHANGED now
Next == Pass \/ Start \/ Stop
(* time spent in activities never exceeds the time that passed, and only the last may run *)
Bounded == AllElapsed(acts, now) <= now
OnlyLast == \A k \in DOMAIN acts : Running(acts[k]) => k = Len(acts)
Disjoint == \A a, b \in DOMAIN acts : a < b => ~Running(acts[a]) /\ acts[a].stop <= acts[b].start
Consistent == Remaining(Total, acts, now) + AllElapsed(acts, now) = Total
Emit == Len(h') = MaxLen => EmitPath(h')
=============================================================================
