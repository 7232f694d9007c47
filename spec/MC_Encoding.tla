----------------------------- MODULE MC_Encoding -----------------------------
(* Columns are written row by row: a value seen before, a new one, or none. *)
EXTENDS Encoding
CONSTANTS N, Cls
VARIABLES vals, h
vars == <<vals, h>>
Init == vals = <<>> /\ h = <<>>
Write == /\ Len(vals) < N
         /\ \E v \in 0..(Cardinality(Present(vals)) + 1) : vals' = Append(vals, v)
         /\ h' = IF Len(vals') = N THEN <<[vals |-> vals', cls |-> Cls]>> ELSE <<>>
Next == Write
F == [kind |-> "cat", vals |-> vals]
Codes == [k \in DOMAIN vals |-> ToString(vals[k])]
Ind == [c \in 1..Cardinality(Present(vals)) |-> [k \in DOMAIN vals |-> IF vals[k] = c THEN "1.0" ELSE "0.0"]]
(* the codes themselves satisfy the requirements; the two formulations of indicators agree *)
OrdinalOK == Identifies(vals, Codes)
IndicatorOK == Cardinality(Present(vals)) <= 4 => (Indicates(vals, Ind) /\ IndicatesFast(vals, Ind))
Swapped == [c \in DOMAIN Ind |-> [k \in DOMAIN vals |-> IF k = 1 THEN "1.0" ELSE Ind[c][k]]]
SameVerdict == (Cardinality(Present(vals)) \in 1..4) => (Indicates(vals, Swapped) = IndicatesFast(vals, Swapped))
TotalTreatment == Treatment(F, Cls) \in {"dropped", "ordinal", "indicator", "left"}
DroppedOnlyIfConstant == vals # <<>> => ((Columns(F, Cls) = {0}) = (Cardinality(RangeOf(vals)) = 1))
Emit == h' # <<>> => EmitPath(h')
=============================================================================
