------------------------------- MODULE Metrics -------------------------------
(***************************************************************************)
(* The supported metrics (C25), as exact rational functions of the true     *)
(* values y and the predictions.  p[k]: predicted label or number; q[k]:    *)
(* eighths of the probability of every class.  Logarithmic losses are in    *)
(* units of log 2 (probabilities are powers of two, numbers 2^k - 1).       *)
(***************************************************************************)
EXTENDS Util

Names == {"accuracy", "roc_auc", "average_precision", "neg_log_loss"}
         \cup {m \o "_" \o a : m \in {"precision", "recall", "f1"}, a \in {"macro", "micro", "samples", "weighted"}}
RegNames == {"explained_variance", "r2", "neg_mean_absolute_error", "neg_mean_squared_log_error",
             "neg_median_absolute_error", "neg_mean_squared_error"}
TypeOf(m) == IF m \in RegNames THEN "regression" ELSE "classification"
FromProbabilities == {"roc_auc", "average_precision", "neg_log_loss"}
Losses == {"neg_log_loss", "neg_mean_absolute_error", "neg_mean_squared_log_error", "neg_median_absolute_error", "neg_mean_squared_error"}

(* ------------------------------- rationals ------------------------------ *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Q(n, d) == LET g == Gcd(Abs(n), d) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
Add(a, b) == LET g == Gcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
Mul(a, b) == Q(a[1] * b[1], a[2] * b[2])
Neg(a) == <<-a[1], a[2]>>
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
RECURSIVE SumQ(_)
SumQ(s) == IF s = <<>> THEN <<0, 1>> ELSE Add(Head(s), SumQ(Tail(s)))
One == <<1, 1>>

(* ------------------------------ class labels ---------------------------- *)
Hits(y, p, c) == Cardinality({k \in DOMAIN y : y[k] = c /\ p[k] = c})
True(y, c) == Count(y, c)
Rate(kind, y, p, c) ==
  LET tp == Hits(y, p, c)
      d == CASE kind = "precision" -> Count(p, c) [] kind = "recall" -> Count(y, c) [] OTHER -> Count(p, c) + Count(y, c)
      n == IF kind = "f1" THEN 2 * tp ELSE tp
  IN IF d = 0 THEN <<0, 1>> ELSE Q(n, d)
Accuracy(y, p) == Q(Cardinality({k \in DOMAIN y : y[k] = p[k]}), Len(y))
(* classes 0..C-1 *)
Averaged(kind, avg, y, p, C) ==
  CASE avg = "micro" -> Accuracy(y, p)     \* every row has one label
    [] avg = "macro" -> Mul(SumQ([k \in 1..C |-> Rate(kind, y, p, k - 1)]), <<1, C>>)
    [] avg = "weighted" -> SumQ([k \in 1..C |-> Mul(Rate(kind, y, p, k - 1), Q(Count(y, k - 1), Len(y)))])

(* ------------------------------ probabilities --------------------------- *)
Bits(e) == CASE e = 8 -> 0 [] e = 4 -> 1 [] e = 2 -> 2 [] e = 1 -> 3
LogLoss(y, q) == Q(SumSeq([k \in DOMAIN y |-> Bits(q[k][y[k] + 1])]), Len(y))
Positive(y) == {k \in DOMAIN y : y[k] = 1}
Negative(y) == {k \in DOMAIN y : y[k] = 0}
Grade(q, k) == q[k][2]
RocAuc(y, q) ==
  LET pairs == Positive(y) \X Negative(y)
      won == Cardinality({z \in pairs : Grade(q, z[1]) > Grade(q, z[2])})
      tied == Cardinality({z \in pairs : Grade(q, z[1]) = Grade(q, z[2])})
  IN Q(2 * won + tied, 2 * Cardinality(pairs))
AveragePrecision(y, q) == \* the mean, over the positives, of the precision at the positive's grade
  LET above(k) == {j \in DOMAIN y : Grade(q, j) >= Grade(q, k)}
      term(k) == IF y[k] = 1 THEN Q(Cardinality(above(k) \cap Positive(y)), Cardinality(above(k)) * Cardinality(Positive(y))) ELSE <<0, 1>>
  IN SumQ([k \in DOMAIN y |-> term(k)])

(* -------------------------------- numbers ------------------------------- *)
Err(y, p) == [k \in DOMAIN y |-> y[k] - p[k]]
SumSq(s) == SumSeq([k \in DOMAIN s |-> s[k] * s[k]])
Spread(s) == Len(s) * SumSq(s) - SumSeq(s) * SumSeq(s)       \* Len^2 times the variance
RECURSIVE Sorted(_)
Sorted(S) == \* S: a set of pairs <<value, index>>; the values in ascending order
  IF S = {} THEN <<>>
  ELSE LET x == CHOOSE x \in S : \A z \in S : x[1] < z[1] \/ (x[1] = z[1] /\ x[2] <= z[2]) IN <<x[1]>> \o Sorted(S \ {x})
Median(s) == LET t == Sorted({<<s[k], k>> : k \in DOMAIN s})  n == Len(s)
             IN IF n % 2 = 1 THEN <<t[(n + 1) \div 2], 1>> ELSE Q(t[n \div 2] + t[n \div 2 + 1], 2)
Log1p(v) == CASE v = 0 -> 0 [] v = 1 -> 1 [] v = 3 -> 2 [] v = 7 -> 3 [] v = 15 -> 4

(* the metric's own value *)
Value(m, y, p, q, C) ==
  CASE m = "accuracy" -> Accuracy(y, p)
    [] m = "roc_auc" -> RocAuc(y, q)
    [] m = "average_precision" -> AveragePrecision(y, q)
    [] m = "neg_log_loss" -> LogLoss(y, q)
    [] m = "neg_mean_squared_error" -> Q(SumSq(Err(y, p)), Len(y))
    [] m = "neg_mean_absolute_error" -> Q(SumSeq([k \in DOMAIN y |-> Abs(y[k] - p[k])]), Len(y))
    [] m = "neg_median_absolute_error" -> Median([k \in DOMAIN y |-> Abs(y[k] - p[k])])
    [] m = "neg_mean_squared_log_error" -> Q(SumSq([k \in DOMAIN y |-> Log1p(y[k]) - Log1p(p[k])]), Len(y))
    [] m = "r2" -> Add(One, Neg(Q(Len(y) * SumSq(Err(y, p)), Spread(y))))
    [] m = "explained_variance" -> Add(One, Neg(Q(Spread(Err(y, p)), Spread(y))))
Kinds == [m \in {"precision_macro", "precision_micro", "precision_weighted"} |-> "precision"]
         @@ [m \in {"recall_macro", "recall_micro", "recall_weighted"} |-> "recall"]
         @@ [m \in {"f1_macro", "f1_micro", "f1_weighted"} |-> "f1"]
Averages == [m \in {"precision_macro", "recall_macro", "f1_macro"} |-> "macro"]
            @@ [m \in {"precision_micro", "recall_micro", "f1_micro"} |-> "micro"]
            @@ [m \in {"precision_weighted", "recall_weighted", "f1_weighted"} |-> "weighted"]
Plain(m, y, p, q, C) == IF m \in DOMAIN Kinds THEN Averaged(Kinds[m], Averages[m], y, p, C) ELSE Value(m, y, p, q, C)
(* higher is better *)
Maximizable(m, y, p, q, C) == IF m \in Losses THEN Neg(Plain(m, y, p, q, C)) ELSE Plain(m, y, p, q, C)
=============================================================================
