----------------------------- MODULE MC_Metrics -----------------------------
(* All small tables of true values and predictions.  Kind: "labels", "binary"
   (graded predictions of two classes), "logs" (three classes), "numbers". *)
EXTENDS Metrics
CONSTANTS Kind, N
VARIABLES y, p, q, h
vars == <<y, p, q, h>>
C == CASE Kind = "labels" -> 3 [] Kind = "logs" -> 3 [] OTHER -> 2
Vals == CASE Kind = "labels" -> {0, 1, 2} [] Kind = "binary" -> {0, 1} [] Kind = "logs" -> {0, 1, 2} [] OTHER -> {0, 1, 3, 7}
Preds == CASE Kind = "labels" -> {0, 1, 2} [] Kind = "binary" -> {0} [] Kind = "logs" -> {0} [] OTHER -> Vals
Probs == CASE Kind = "binary" -> {<<8 - v, v>> : v \in {1, 3, 6}} [] Kind = "logs" -> {<<4, 2, 2>>, <<2, 4, 2>>, <<2, 2, 4>>} [] OTHER -> {<<>>}
Init == y = <<>> /\ p = <<>> /\ q = <<>> /\ h = <<>>
Complete == Len(y) = N
Proper(s) == IF Kind = "numbers" THEN Cardinality(RangeOf(s)) >= 2 ELSE RangeOf(s) = 0..(C - 1)
Row == /\ Len(y) < N
       /\ \E v \in Vals, w \in Preds, z \in Probs :
            /\ y' = Append(y, v) /\ p' = Append(p, w) /\ q' = Append(q, z)
            /\ (y # <<>> => v >= y[Len(y)])       \* rows up to order
            /\ h' = IF Len(y') = N /\ Proper(y') THEN <<[y |-> y', p |-> p', q |-> q', C |-> C]>> ELSE <<>>
Next == Row
Of == CASE Kind = "labels" -> {"accuracy"} \cup DOMAIN Kinds
        [] Kind = "binary" -> {"roc_auc", "average_precision"}
        [] Kind = "logs" -> {"neg_log_loss"}
        [] OTHER -> RegNames
Ideal == IF Kind = "binary" THEN [k \in DOMAIN y |-> IF y[k] = 1 THEN <<2, 6>> ELSE <<7, 1>>]
         ELSE [k \in DOMAIN y |-> CASE y[k] = 0 -> <<4, 2, 2>> [] y[k] = 1 -> <<2, 4, 2>> [] OTHER -> <<2, 2, 4>>]
Ready == Complete /\ Proper(y)
(* the true values themselves are never beaten *)
PerfectIsBest == Ready => \A m \in Of :
  Leq(Maximizable(m, y, p, q, C), Maximizable(m, y, IF Kind \in {"labels", "numbers"} THEN y ELSE p, IF Kind \in {"binary", "logs"} THEN Ideal ELSE q, C))
(* correcting one row never lowers the score of metrics that judge rows one by one *)
RowWise == {"accuracy", "precision_micro", "recall_macro", "recall_weighted", "neg_mean_squared_error", "neg_mean_absolute_error",
            "neg_median_absolute_error", "neg_mean_squared_log_error", "r2", "neg_log_loss", "roc_auc"}
Fixed(k) == IF Kind \in {"labels", "numbers"} THEN [p EXCEPT ![k] = y[k]] ELSE p
FixedQ(k) == IF Kind \in {"binary", "logs"} THEN [q EXCEPT ![k] = Ideal[k]] ELSE q
CorrectionHelps == Ready => \A m \in Of \cap RowWise : \A k \in DOMAIN y :
  Leq(Maximizable(m, y, p, q, C), Maximizable(m, y, Fixed(k), FixedQ(k), C))
Emit == h' # <<>> => EmitPath(h')
=============================================================================
