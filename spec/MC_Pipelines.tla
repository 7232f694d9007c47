---------------------------- MODULE MC_Pipelines ----------------------------
(* A tiny space: creation, then every mutation and crossover as constructed by
   the operators; each result must be well-formed and be the declared edit.
   A state is (pipeline, how it was made, from what). *)
EXTENDS Pipelines
CONSTANTS MaxLen
VARIABLES a, o, ps
vars == <<a, o, ps>>

Space == [prims |-> [GaussianNB   |-> [out |-> "prediction", slots |-> <<>>],
                     BernoulliNB  |-> [out |-> "prediction", slots |-> <<"alpha">>],
                     MinMaxScaler |-> [out |-> "data", slots |-> <<>>],
                     Binarizer    |-> [out |-> "data", slots |-> <<"Binarizer.threshold">>]],
          terms |-> [alpha |-> <<"float:0.1", "float:1.0">>]
                    @@ ("Binarizer.threshold" :> <<"float:0.0", "float:0.5">>)]
All == AllPipelines(Space, MaxLen)

(* operational: as the operators build their results *)
Shrink(x) == {SubSeq(x, 1, n) : n \in 1..(Len(x) - 1)}
Insert(x) == IF Len(x) >= MaxLen THEN {}
             ELSE {SubSeq(x, 1, k) \o <<t>> \o SubSeq(x, k + 1, Len(x)) : k \in DOMAIN x, t \in Steps(Space, "data")}
Set(x, k, t) == [x EXCEPT ![k] = t]
ReplaceStep(x) == UNION {{Set(x, k, t) : t \in {t \in Steps(Space, Out(Space, x[k])) : t.p # x[k].p}} : k \in DOMAIN x}
SetSlot(s, j, v) == [s EXCEPT !.h = [@ EXCEPT ![j] = <<@[1], v>>]]
ReplaceSlot(x) == UNION {UNION {{Set(x, k, SetSlot(x[k], j, v)) :
                     v \in RangeOf(Space.terms[x[k].h[j][1]]) \ {x[k].h[j][2]}} : j \in DOMAIN x[k].h} : k \in DOMAIN x}
SwapPrep(x, y) == {SubSeq(x, 1, i) \o SubSeq(y, j + 1, Len(y)) : i \in 1..(Len(x) - 1), j \in 1..(Len(y) - 1)}
SwapSlot(x, y) == UNION {UNION {{Set(x, k, SetSlot(x[k], j, u[2])) :
                     u \in {u \in SlotsOf(y) : u[1] = x[k].h[j][1] /\ u[2] # x[k].h[j][2]}} : j \in DOMAIN x[k].h} : k \in DOMAIN x}
Mate(x, y) == {c \in SwapPrep(x, y) \cup SwapSlot(x, y) : Len(c) <= MaxLen}

Init == a \in All /\ o = "new" /\ ps = <<>>
Next == /\ o = "new"
        /\ \/ \E b \in Shrink(a) : a' = b /\ o' = "mut_shrink" /\ ps' = <<a>>
           \/ \E b \in Insert(a) : a' = b /\ o' = "mut_insert" /\ ps' = <<a>>
           \/ \E b \in ReplaceStep(a) : a' = b /\ o' = "mut_replace_primitive" /\ ps' = <<a>>
           \/ \E b \in ReplaceSlot(a) : a' = b /\ o' = "mut_replace_terminal" /\ ps' = <<a>>
           \/ \E y \in All : \E b \in Mate(a, y) : a' = b /\ o' = "cx" /\ ps' = <<a, y>>

Closed == a \in All
WellFormedInv == WellFormed(Space, a) /\ Fits(a, MaxLen)
EditInv == EditOK(o, ps, a)
NotTheParent == (o \notin {"new", "cx"}) => a # ps[1]
(* "new" states double as inputs: the complete set of pipelines *)
Emit == (o' = "mut_replace_primitive") => EmitPath(a)
=============================================================================
