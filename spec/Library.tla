------------------------------ MODULE Library ------------------------------
(***************************************************************************)
(* The evaluation library (C09, C10).  `saved` is the history of saved      *)
(* evaluations, `top` the ids of the evaluations whose models are kept.     *)
(* An evaluation is [id, score, ok]; scores are equally long tuples of      *)
(* integers; limit m < 0 means unlimited.                                   *)
(***************************************************************************)
EXTENDS Util

Rec(saved, id) == LET k == CHOOSE k \in DOMAIN saved : saved[k].id = id IN saved[k]
Ids(saved) == {saved[k].id : k \in DOMAIN saved}
OkIds(saved) == {saved[k].id : k \in {k \in DOMAIN saved : saved[k].ok}}
Better(saved, a, b) == LexLess(Rec(saved, b).score, Rec(saved, a).score)

(* --- what the library does, one save at a time (the online algorithm) --- *)
Worst(saved, S) == {x \in S : \A y \in S : ~Better(saved, x, y)}
(* Possible values of top after saving e. *)
SaveNext(saved, top, e, m) ==
  LET s2 == Append(saved, e) IN
  IF ~e.ok THEN {top}
  ELSE IF m < 0 \/ Cardinality(top) < m THEN {top \cup {e.id}}
  ELSE IF top # {} /\ \E w \in Worst(s2, top) : Better(s2, e.id, w)
       THEN {(top \ {w}) \cup {e.id} : w \in Worst(s2, top)}
       ELSE {top}

(* --- what users rely on: top is a set of m best of the whole history --- *)
Limit(m, n) == IF m < 0 \/ m > n THEN n ELSE m
IsTop(saved, top, m) ==
  /\ top \subseteq OkIds(saved)
  /\ Cardinality(top) = Limit(m, Cardinality(OkIds(saved)))
  /\ \A a \in OkIds(saved) \ top : \A b \in top : ~Better(saved, a, b)

Descending(saved, ids) == \A k \in 1..(Len(ids) - 1) : ~Better(saved, ids[k + 1], ids[k])

(* ids is a valid answer to "the n best" out of the candidates C. *)
IsBest(saved, C, ids, n) ==
  /\ Len(ids) = Limit(n, Cardinality(C))
  /\ RangeOf(ids) \subseteq C /\ Cardinality(RangeOf(ids)) = Len(ids)
  /\ Descending(saved, ids)
  /\ \A a \in C \ RangeOf(ids) : \A b \in RangeOf(ids) : ~Better(saved, a, b)
=============================================================================
