------------------------------ MODULE FitModel ------------------------------
(***************************************************************************)
(* What fit starts its search from and which individual becomes the model    *)
(* (C16).  Scores are sequences of integers; NEG stands for minus infinity.  *)
(***************************************************************************)
EXTENDS Util
NewStart == 50
(* indices of the lexicographically highest scores *)
Best(scores) == {k \in DOMAIN scores : \A j \in DOMAIN scores : ~LexLess(scores[k], scores[j])}
StartKind(warm, prev) == IF warm # <<>> THEN "warm" ELSE IF prev # <<>> THEN "previous" ELSE "new"
(* the individuals (numbers; 0 for one not seen before) a search has to start from *)
StartOK(start, warm, prev, known) ==
  CASE StartKind(warm, prev) = "warm" -> start = warm
    [] StartKind(warm, prev) = "previous" -> start = prev
    [] OTHER -> Len(start) = NewStart /\ Cardinality(RangeOf(start)) = NewStart /\ RangeOf(start) \cap known = {}
=============================================================================
