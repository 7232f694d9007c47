---------------------------- MODULE RandomSearch ----------------------------
(***************************************************************************)
(* Random search (C04).  results: ids in completion order of evaluations    *)
(* that returned a result (also a failed one); outstanding stays constant.  *)
(***************************************************************************)
EXTENDS Util
HasResult(oc) == oc \in {"ok", "err"}
Finished(results, max) == max > 0 /\ Len(results) >= max
=============================================================================
