------------------------------ MODULE Evaluate ------------------------------
(***************************************************************************)
(* Evaluation of one pipeline by cross validation (C12).                    *)
(*   rows 1..n, y[row] the label (an integer).                              *)
(*   est[k] = [train, tested, out]: fold k's estimator: the rows it was      *)
(*     trained on, the rows it predicted, and its prediction for every row:  *)
(*     an integer, or for classifiers the exponents e with p = 2^-e of the   *)
(*     probabilities (e = 1 marks the predicted class).                      *)
(*   Scores are multiplied by (number of folds) * Unit.                      *)
(***************************************************************************)
EXTENDS Util
Unit == 2520
Rows(n) == 1..n
(* ------------------------------ predictions ----------------------------- *)
Label(out) == (CHOOSE c \in DOMAIN out : out[c] = 1) - 1
Fold(est, k) == RangeOf(est[k].tested)
FoldOf(est, row) == CHOOSE k \in DOMAIN est : row \in Fold(est, k)
HeldOut(est) == \A k \in DOMAIN est : Fold(est, k) \cap RangeOf(est[k].train) = {}
EachRowOnce(n, est) == \A row \in Rows(n) : Cardinality({k \in DOMAIN est : row \in Fold(est, k)}) = 1
PredictionsMatch(n, est, pred, proba, cls) ==
  \A row \in Rows(n) :
    LET o == est[FoldOf(est, row)].out[row]
    IN pred[row] = IF ~cls \/ proba THEN o ELSE Label(o)
(* -------------------------------- scores -------------------------------- *)
Abs(x) == IF x < 0 THEN -x ELSE x
RowScore(metric, y, out) ==
  CASE metric = "accuracy" -> IF Label(out) = y THEN 1 ELSE 0
    [] metric = "neg_log_loss" -> -(out[y + 1])          \* in bits
    [] metric = "neg_mean_squared_error" -> -((out - y) * (out - y))
    [] metric = "neg_mean_absolute_error" -> -(Abs(out - y))
RECURSIVE Weighted(_, _)
Weighted(V, count) == IF V = {} THEN 0 ELSE LET v == CHOOSE v \in V : TRUE IN v * count[v] + Weighted(V \ {v}, count)
SumRows(metric, y, out, S) == \* by value: few scores differ
  LET of(x) == RowScore(metric, y[x], out[x])
      V == {of(x) : x \in S}
  IN Weighted(V, [v \in V |-> Cardinality({x \in S : of(x) = v})])
(* metrics averaged over the classes, every class counted once (times the number of classes) *)
ClassRate(metric, y, out, S, c) ==
  LET base == IF metric = "recall_macro" THEN {x \in S : y[x] = c} ELSE {x \in S : Label(out[x]) = c}
      hits == {x \in base : y[x] = c /\ Label(out[x]) = c}
  IN IF base = {} THEN 0 ELSE Cardinality(hits) * (Unit \div Cardinality(base))
RECURSIVE SumClasses(_, _, _, _, _)
SumClasses(metric, y, out, S, C) == IF C = {} THEN 0
  ELSE LET c == CHOOSE c \in C : TRUE IN ClassRate(metric, y, out, S, c) + SumClasses(metric, y, out, S, C \ {c})
FoldScore(metric, y, e) ==
  LET S == RangeOf(e.tested) IN
  IF metric \in {"recall_macro", "precision_macro"} THEN SumClasses(metric, y, e.out, S, RangeOf(y))
  ELSE SumRows(metric, y, e.out, S) * (Unit \div Cardinality(S))
RECURSIVE SumFolds(_, _, _)
SumFolds(metric, y, est) == IF est = <<>> THEN 0 ELSE FoldScore(metric, y, Head(est)) + SumFolds(metric, y, Tail(est))
(* ------------------------------- subsamples ----------------------------- *)
(* sub: [kind |-> "none"] | [kind |-> "rows", v] | [kind |-> "frac", v] (thousandths) *)
Available(n, e) == n - Cardinality(RangeOf(e.tested))
SizeOK(n, e, sub) ==
  LET have == Cardinality(RangeOf(e.train)) IN
  /\ Len(e.train) = have
  /\ have = CASE sub.kind = "none" -> Available(n, e)
              [] sub.kind = "rows" -> IF sub.v < Available(n, e) THEN sub.v ELSE Available(n, e)
              [] sub.kind = "frac" -> IF sub.v >= 1000 THEN Available(n, e) ELSE (sub.v * Available(n, e)) \div 1000
(* labels stay with their rows *)
LabelsKept(e, y) == \A p \in DOMAIN e.train : e.trainy[p] = y[e.train[p]]
=============================================================================
