------------------------------- MODULE RowWise -------------------------------
(***************************************************************************)
(* Prediction after training (C28).  Training learns a code for every value  *)
(* it has seen; the answer for a row is computed from that row and from      *)
(* what training learnt, so a call answers each of its rows as any other     *)
(* call does.                                                                *)
(***************************************************************************)
EXTENDS Util
(* the codes learnt from the training values: seen values are numbered in order of appearance *)
Codes(train) == [v \in RangeOf(train) |-> CHOOSE k \in DOMAIN train : train[k] = v /\ \A j \in DOMAIN train : train[j] = v => k <= j]
Code(codes, v) == IF v \in DOMAIN codes THEN codes[v] ELSE 0
Answers(codes, values, rows) == [k \in DOMAIN rows |-> Code(codes, values[rows[k]])]
=============================================================================
