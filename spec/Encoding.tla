------------------------------ MODULE Encoding ------------------------------
(***************************************************************************)
(* Encoding of features (C24).  A feature is a record                       *)
(*   kind "num" or "cat", vals: one entry per row; for categorical features *)
(*   the number of the value, 0 if missing.                                 *)
(***************************************************************************)
EXTENDS Util
Low == 2
High == 10

Present(vals) == RangeOf(vals) \ {0}
HasMissing(vals) == 0 \in RangeOf(vals)
Constant(vals) == Present(vals) = {} \/ (Cardinality(Present(vals)) = 1 /\ ~HasMissing(vals))
(* how the feature reaches the search *)
Treatment(f, classification) ==
  LET d == Cardinality(Present(f.vals)) IN
  IF f.kind = "num" THEN "same"
  ELSE IF d <= Low THEN (IF Constant(f.vals) THEN "dropped" ELSE "ordinal")
  ELSE IF d <= High THEN "indicator"
  ELSE IF classification THEN "ordinal" ELSE "left"
Columns(f, classification) == \* an indicator of missing values may be present
  CASE Treatment(f, classification) = "dropped" -> {0}
    [] Treatment(f, classification) = "indicator" ->
         {Cardinality(Present(f.vals))} \cup (IF HasMissing(f.vals) THEN {Cardinality(Present(f.vals)) + 1} ELSE {})
    [] OTHER -> {1}

(* ---- what the resulting columns must look like; col[k]: entry of row k (a text) ---- *)
(* one column whose entry identifies the value *)
Identifies(vals, col) == \A a, b \in DOMAIN vals : (vals[a] # 0 /\ vals[b] # 0) => ((vals[a] = vals[b]) = (col[a] = col[b]))
(* one column per value, each row marked in the column of its value only *)
Indicates(vals, cols) ==
  \E own \in [Present(vals) -> DOMAIN cols] :
    /\ \A v, w \in Present(vals) : own[v] = own[w] => v = w
    /\ \A k \in DOMAIN vals : vals[k] # 0 => \A c \in DOMAIN cols : (cols[c][k] = "1.0") = (c = own[vals[k]])
Marked(cols, k) == {c \in DOMAIN cols : cols[c][k] = "1.0"}
IndicatesFast(vals, cols) == \* the same, without searching for the assignment
  /\ \A k \in DOMAIN vals : vals[k] # 0 => Cardinality(Marked(cols, k)) = 1
  /\ \A a, b \in DOMAIN vals : (vals[a] # 0 /\ vals[b] # 0) => ((vals[a] = vals[b]) = (Marked(cols, a) = Marked(cols, b)))
=============================================================================
