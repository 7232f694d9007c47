----------------------------- MODULE Offspring -----------------------------
(***************************************************************************)
(* Offspring are new (C07).  done: pipelines evaluated so far in this run;  *)
(* an offspring request makes attempts (each yields a pipeline) until one   *)
(* is not in done or the allowed number of attempts is used up.             *)
(***************************************************************************)
EXTENDS Util

FirstNew(done, atts) == LET N == {k \in DOMAIN atts : atts[k] \notin done}
                        IN IF N = {} THEN 0 ELSE MinOf(N)
(* atts: the pipelines the first `retry` attempts yield *)
Used(done, atts, retry) == LET k == FirstNew(done, SubSeq(atts, 1, retry)) IN IF k = 0 THEN retry ELSE k
Allowed(done, atts, retry) ==
  LET k == FirstNew(done, SubSeq(atts, 1, retry))
  IN IF k = 0 THEN RangeOf(SubSeq(atts, 1, retry)) ELSE {atts[k]}
=============================================================================
