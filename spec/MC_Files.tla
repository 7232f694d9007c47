------------------------------ MODULE MC_Files ------------------------------
(* All small tables, targets and file kinds. *)
EXTENDS Files
CONSTANTS MaxCols, Formats
VARIABLES cols, pick, h
vars == <<cols, pick, h>>
KindsOf == {"nominal", "text", "whole", "real"}
Names == <<"a", "b", "c", "d", "e">>
CellsOf(k) == CASE k = "real" -> <<"0.5", "none", "1.5">> [] k = "whole" -> <<"1.0", "2.0", "1.0">> [] OTHER -> <<"u", "v", "none">>
Init == cols = <<>> /\ pick = "none" /\ h = <<>>
AddColumn == /\ pick = "none" /\ Len(cols) < MaxCols
             /\ \E k \in KindsOf : cols' = Append(cols, [name |-> Names[Len(cols) + 1], kind |-> k, cells |-> CellsOf(k)])
             /\ UNCHANGED <<pick, h>>
Load == /\ pick = "none" /\ Len(cols) >= 2
        /\ \E t \in {"", "zz"} \cup {cols[k].name : k \in DOMAIN cols}, f \in Formats :
             /\ (f = "csv" => \A k \in DOMAIN cols : cols[k].kind # "nominal")
             /\ (f = "arff" => \A k \in DOMAIN cols : cols[k].kind # "text")
             /\ pick' = t /\ h' = <<[kinds |-> [k \in DOMAIN cols |-> cols[k].kind], target |-> IF t \in {"", "zz"} THEN t ELSE t, format |-> f]>>
        /\ UNCHANGED cols
Next == AddColumn \/ Load
S == Split(cols, pick, h[1].format)
(* features and target are exactly the columns of the file *)
NothingLost == (h # <<>> /\ Known(cols, pick)) =>
   /\ Len(S.x) = Len(cols) - 1
   /\ {S.y} \cup RangeOf(S.x) = {Loaded(cols[k], h[1].format) : k \in DOMAIN cols}
   /\ S.y \notin RangeOf(S.x)
   /\ (pick = "" => S.y = Loaded(cols[Len(cols)], h[1].format))
InOrder == (h # <<>> /\ Known(cols, pick)) =>
   \A a, b \in DOMAIN S.x : a < b => \E p, q \in DOMAIN cols : p < q /\ cols[p].name = S.x[a].name /\ cols[q].name = S.x[b].name
Emit == h' # <<>> => EmitPath(h')
=============================================================================
