----------------------------- MODULE MC_Pareto -----------------------------
(* All sequences of updates over a small grid; the points also serve as the
   populations on which sorting and selection are exercised. *)
EXTENDS Pareto
CONSTANTS MaxLen, Dim, Vals
VARIABLES P, F
vars == <<P, F>>
Points == [1..Dim -> Vals]
Init == P = <<>> /\ F = {}
Next == /\ Len(P) < MaxLen
        /\ \E v \in Points : P' = Append(P, v)
        /\ F' = UpdateFront(P', F, Len(P'))
FrontExact == F = FrontOf(P)
RanksAgree == \A k \in DOMAIN P : Rank(P, k) = Chain(P, k)
BestRanked == \A k \in DOMAIN P : (\A j \in DOMAIN P : ~GtAll(P[j], P[k])) => Rank(P, k) = 1
SomeParents == Len(P) >= 2 => \E k \in DOMAIN P : MayBeParent(P, Fronts(P), k)
SomeRemovable == P # <<>> => \E k \in DOMAIN P : Removable(P, k)
Emit == (Len(P') = MaxLen) => EmitPath(P')
=============================================================================
