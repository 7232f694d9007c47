---------------------------- MODULE MC_Ensemble ----------------------------
(* Greedy construction as implemented (incremental average, first best wins). *)
EXTENDS Ensemble
CONSTANTS M, R, MaxV, Size, Metric
VARIABLES P, y, w, score, step
vars == <<P, y, w, score, step>>
Vals == IF Metric = "neg_log_loss" THEN {<<2, 6>>, <<4, 4>>, <<7, 1>>} ELSE 0..MaxV
C == 0..1
Init == /\ P \in [1..M -> [1..R -> Vals]]
        /\ y = [r \in 1..R |-> r % 2]
        /\ score = [m \in 1..M |-> IF m = 1 THEN 2 ELSE 1]
        /\ w = [m \in 1..M |-> IF m = 1 THEN 1 ELSE 0] /\ step = 1
(* the class predicted by an average: the first of the largest *)
FirstWinner(v, r) == MinOf(Winners(P, v, r, C))
Score(v) == IF Metric = "accuracy" THEN Cardinality({r \in 1..R : FirstWinner(v, r) = y[r]})
            ELSE Quality(Metric, P, v, y, C).lo
FirstBest == CHOOSE m \in 1..M : /\ \A o \in 1..M : Score(Add(w, o)) <= Score(Add(w, m))
                                 /\ \A o \in 1..(m - 1) : Score(Add(w, o)) < Score(Add(w, m))
Next == step < Size /\ step' = step + 1 /\ w' = Add(w, FirstBest) /\ UNCHANGED <<P, y, score>>
TotalIsStep == Total(w) = step
Greedy == step = Size => w \in Possible(Metric, P, score, y, C, Size)
SameTo == step = Size => (\A v \in [1..M -> 0..Size] : IsPossible(Metric, P, score, y, C, Size, v) <=> v \in Possible(Metric, P, score, y, C, Size))
(* adding the best model is never worse than adding any other *)
Emit == step' = Size => EmitPath(<<[p |-> P, y |-> y, score |-> score, size |-> Size, metric |-> Metric]>>)
=============================================================================
