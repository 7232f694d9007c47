------------------------------ MODULE MC_Repeat ------------------------------
(* Two copies of the same search under different schedules. *)
EXTENDS Repeat
CONSTANTS Starts, MaxTaken, Spare, Workers
VARIABLES a, b, ha, hb
vars == <<a, b, ha, hb>>
Init == a = Begin(Starts) /\ b = Begin(Starts) /\ ha = <<>> /\ hb = <<>>
StepA == \/ /\ CanTake(a) /\ Len(a.taken) < MaxTaken /\ a' = Take(a, Spare) /\ ha' = Append(ha, "t") /\ UNCHANGED <<b, hb>>
         \/ \E k \in 1..Workers : /\ k <= Len(a.inq) /\ a' = Work(a, k) /\ ha' = Append(ha, "w") /\ UNCHANGED <<b, hb>>
(* the second copy evaluates a job only when its result is waited for *)
StepB == /\ Len(b.taken) < Len(a.taken)
         /\ b' = IF CanTake(b) THEN Take(b, Spare) ELSE Work(b, 1)
         /\ hb' = Append(hb, IF CanTake(b) THEN "t" ELSE "w") /\ UNCHANGED <<a, ha>>
Next == StepB \/ (~ENABLED StepB /\ StepA)
(* the same results in the same order, whatever the schedule *)
SameResults == Agree(a.taken, b.taken)
SameDraws == Len(a.taken) = Len(b.taken) => a.draws = b.draws
View == <<a, b, ha>>
Done == Len(a.taken) = MaxTaken /\ Len(b.taken) = MaxTaken
Emit == (Len(a'.taken) = MaxTaken /\ Len(b'.taken) = MaxTaken /\ ~Done) => EmitPath(<<ha'>>)
=============================================================================
