------------------------------ MODULE Callbacks ------------------------------
(***************************************************************************)
(* Passing completed evaluations to callbacks (C15).  A callback's            *)
(* behaviour: ok, error (any exception of its own), timeout (the search's     *)
(* timeout is raised in it), swallow (it consumes the timeout).  late: time   *)
(* beyond the search's limit after the callback, in quarter seconds.          *)
(***************************************************************************)
EXTENDS Util
Margin == 12
(* a callback after which the search's timeout is raised *)
Stops(b, late) == b = "timeout" \/ late > Margin
(* number of callbacks called for one evaluation: all, up to the first that stops *)
CalledCount(bs, lates) ==
  LET S == {k \in DOMAIN bs : Stops(bs[k], lates[k])} IN IF S = {} THEN Len(bs) ELSE MinOf(S)
Raises(bs, lates) == \E k \in DOMAIN bs : Stops(bs[k], lates[k])
=============================================================================
