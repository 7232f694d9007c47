---------------------------- MODULE MC_FitModel ----------------------------
(* Repeated fits of one object as implemented: sort by score, take the first.
   A search ends by itself, by its timeout or by the user, with the output so far. *)
EXTENDS FitModel
CONSTANTS Fits, MaxOut, Vals, Endings
VARIABLES prev, n, model, h
vars == <<prev, n, model, h>>
Init == prev = <<>> /\ n = 0 /\ model = 0 /\ h = <<>>
Outs == UNION {[1..k -> Vals] : k \in 1..MaxOut}
SortedFirst(scores) == CHOOSE k \in DOMAIN scores : \A j \in DOMAIN scores : scores[j] <= scores[k]
Fit == /\ n < Fits /\ \E warm \in BOOLEAN, how \in Endings, out \in Outs :
            /\ h' = Append(h, [op |-> "fit", warm |-> warm, how |-> how, out |-> out])
            /\ prev' = [k \in DOMAIN out |-> 100 * (n + 1) + k]
            /\ model' = SortedFirst(out)
       /\ n' = n + 1
BadWarm == /\ n < Fits /\ h' = Append(h, [op |-> "badwarm"]) /\ n' = n + 1 /\ UNCHANGED <<prev, model>>
Next == Fit \/ BadWarm
Last == h[Len(h)]
ModelIsBest == (h # <<>> /\ Last.op = "fit") => model \in Best([k \in DOMAIN Last.out |-> <<Last.out[k]>>])
StartConsistent == StartOK(prev, <<>>, prev, {}) \/ prev = <<>>
HasModel == prev = <<>> <=> model = 0
Emit == n' = Fits => EmitPath(h')
=============================================================================
