----------------------------- MODULE MC_Library -----------------------------
(* Exhaustive bounded model of the library: all save sequences. *)
EXTENDS Library
CONSTANTS MaxLen, Scores, Limits
VARIABLES m, saved, top, hist
vars == <<m, saved, top, hist>>
Init == m \in Limits /\ saved = <<>> /\ top = {} /\ hist = <<[op |-> "m", m |-> m]>>
Save(s) ==
  LET e == [id |-> Len(saved) + 1, score |-> <<s>>, ok |-> s # 0] IN
  /\ Len(saved) < MaxLen
  /\ top' \in SaveNext(saved, top, e, m)
  /\ saved' = Append(saved, e)
  /\ hist' = Append(hist, [op |-> "save", s |-> s])
  /\ UNCHANGED m
Next == \E s \in Scores : Save(s)
Inv == IsTop(saved, top, m)
(* Models of evaluations that left the top are never needed again: an evaluation
   outside the top never re-enters it. *)
NoReentry == [][\A x \in OkIds(saved) \ top : x \notin top']_vars
Emit == (Len(hist') = MaxLen + 1) => EmitPath(hist')
=============================================================================
