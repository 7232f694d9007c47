------------------------------ MODULE MC_Labels ------------------------------
(* Fit as implemented: unlabelled rows are dropped by position, labels are encoded,
   the model memorises its training rows, predictions are decoded. *)
EXTENDS Labels
CONSTANTS N, K
VARIABLES y, ph, enc, mem, out
vars == <<y, ph, enc, mem, out>>
Init == y \in [1..N -> 0..K] /\ Cardinality(Seen(y)) >= 2 /\ ph = "given" /\ enc = <<>> /\ mem = <<>> /\ out = <<>>
Drop == ph = "given" /\ enc' = [k \in DOMAIN LabelledRows(y) |-> Column(y, y[LabelledRows(y)[k]])] /\ ph' = "encoded" /\ UNCHANGED <<y, mem, out>>
Fit == ph = "encoded" /\ mem' = [k \in DOMAIN enc |-> <<LabelledRows(y)[k], enc[k]>>] /\ ph' = "fitted" /\ UNCHANGED <<y, enc, out>>
Predict == ph = "fitted" /\ out' = [k \in DOMAIN mem |-> <<mem[k][1], Decode(y, mem[k][2])>>] /\ ph' = "predicted" /\ UNCHANGED <<y, enc, mem>>
Next == Drop \/ Fit \/ Predict
RoundTrip == ph = "predicted" => \A k \in DOMAIN out : y[out[k][1]] = out[k][2]
AllRows == ph = "predicted" => Len(out) = Len(LabelledY(y)) /\ RangeOf(enc) = 1..Cardinality(Seen(y))
Emit == ph' = "predicted" => EmitPath(<<[y |-> y]>>)
=============================================================================
