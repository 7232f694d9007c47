-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Loading a file (C18).  A table is a sequence of columns                   *)
(*   [name, kind, cells]    cells: one text per row, "none" if missing.      *)
(* kind: "nominal" (declared), "text", "whole" (whole numbers), "real".      *)
(* format: "csv", "arff" or "array".                                        *)
(***************************************************************************)
EXTENDS Util
FewValues == 10
Distinct(cells) == RangeOf(cells) \ {"none"}
LoadedType(col, format) ==
  CASE col.kind = "nominal" -> "category"
    [] col.kind = "text" -> "category"
    [] col.kind = "whole" /\ format # "arff" /\ Cardinality(Distinct(col.cells)) <= FewValues -> "category"
    [] OTHER -> "number"
Loaded(col, format) == [name |-> col.name, type |-> LoadedType(col, format), cells |-> col.cells]

(* target "": the last column *)
TargetIndex(cols, target) == IF target = "" THEN Len(cols) ELSE CHOOSE k \in DOMAIN cols : cols[k].name = target
Known(cols, target) == target = "" \/ \E k \in DOMAIN cols : cols[k].name = target
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Split(cols, target, format) ==
  LET t == TargetIndex(cols, target)  all == [k \in DOMAIN cols |-> Loaded(cols[k], format)]
  IN [x |-> Drop(all, t), y |-> all[t]]
=============================================================================
