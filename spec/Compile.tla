------------------------------- MODULE Compile -------------------------------
(***************************************************************************)
(* From an individual to the pipeline that is evaluated (C27).  An          *)
(* individual is the sequence of its steps from the predictor towards the    *)
(* data, a step is its operator p and its hyperparameter values h.  Its      *)
(* pipeline is the fixed preprocessing of the fit, then the steps from the   *)
(* data towards the predictor.                                               *)
(***************************************************************************)
EXTENDS Util
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Built(pre, ind) == pre \o Rev(ind)
(* of a pipeline built from ind: the part made from the individual, and the fixed part *)
OwnPart(pipe, ind) == SubSeq(pipe, Len(pipe) - Len(ind) + 1, Len(pipe))
FixedPart(pipe, ind) == SubSeq(pipe, 1, Len(pipe) - Len(ind))
=============================================================================
