------------------------------- MODULE Labels -------------------------------
(***************************************************************************)
(* Labels of a classification target (C17).  Labels are numbered in sorted    *)
(* order 1..K; 0 is a missing label.  y: one label per row.                    *)
(***************************************************************************)
EXTENDS Util
Seen(y) == {y[k] : k \in DOMAIN y} \ {0}
LabelledRows(y) == SelectSeq([k \in DOMAIN y |-> k], LAMBDA k : y[k] # 0)
LabelledY(y) == SelectSeq(y, LAMBDA v : v # 0)
(* position of a label among those seen: what encoding gives, and the column of its probability *)
Column(y, v) == Cardinality({u \in Seen(y) : u <= v})
Decode(y, c) == CHOOSE v \in Seen(y) : Column(y, v) = c
=============================================================================
