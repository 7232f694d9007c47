------------------------------ MODULE Ensemble ------------------------------
(***************************************************************************)
(* Greedy ensemble construction (C11), in integers.  P[m][r]: held-out       *)
(* prediction of model m on stored row r: a number (regression), a class     *)
(* (label metrics), or a sequence of eighths (probability metrics).  y[r]:   *)
(* the label of that row.  w: weights (function from models to naturals).    *)
(***************************************************************************)
EXTENDS Util, FiniteSetsExt, Functions
SumF(f, S) == FoldFunctionOnSet(+, 0, f, S)
Total(w) == SumF(w, DOMAIN w)
Add(w, c) == [w EXCEPT ![c] = @ + 1]
Abs(x) == IF x < 0 THEN -x ELSE x
(* (weighted sum of predictions for row r) *)
WSum(P, w, r) == SumF([m \in DOMAIN w |-> w[m] * P[m][r]], DOMAIN w)
Votes(P, w, r, c) == SumF([m \in DOMAIN w |-> IF P[m][r] = c THEN w[m] ELSE 0], DOMAIN w)
Mass(P, w, r, c) == SumF([m \in DOMAIN w |-> w[m] * P[m][r][c + 1]], DOMAIN w)
(* classes with the largest vote *)
Winners(P, w, r, C) == {c \in C : \A d \in C : Votes(P, w, r, d) <= Votes(P, w, r, c)}
RECURSIVE Prod(_, _, _, _)
Prod(P, w, y, S) == IF S = {} THEN 1 ELSE LET r == CHOOSE r \in S : TRUE IN Mass(P, w, r, y[r]) * Prod(P, w, y, S \ {r})
(* Quality of weights as [lo, hi]: equal unless a vote is tied (either class may win then). *)
Quality(metric, P, w, y, C) ==
  LET R == DOMAIN y IN
  CASE metric = "neg_mean_squared_error" ->
         LET q == -SumF([r \in R |-> LET d == WSum(P, w, r) - Total(w) * y[r] IN d * d], R) IN [lo |-> q, hi |-> q]
    [] metric = "neg_mean_absolute_error" ->
         LET q == -SumF([r \in R |-> Abs(WSum(P, w, r) - Total(w) * y[r])], R) IN [lo |-> q, hi |-> q]
    [] metric = "accuracy" ->
         [lo |-> Cardinality({r \in R : Winners(P, w, r, C) = {y[r]}}),
          hi |-> Cardinality({r \in R : y[r] \in Winners(P, w, r, C)})]
    [] metric = "neg_log_loss" -> LET q == Prod(P, w, y, R) IN [lo |-> q, hi |-> q]
(* models whose addition may be the best one *)
BestAdditions(metric, P, w, y, C) ==
  LET q == [m \in DOMAIN w |-> Quality(metric, P, Add(w, m), y, C)]
      bound == MaxOf({q[m].lo : m \in DOMAIN w})
  IN {m \in DOMAIN w : q[m].hi >= bound}
RECURSIVE Grow(_, _, _, _, _, _)
Grow(metric, P, W, y, C, n) ==
  IF n = 0 THEN W
  ELSE Grow(metric, P, UNION {{Add(w, m) : m \in BestAdditions(metric, P, w, y, C)} : w \in W}, y, C, n - 1)
(* the same, restricted to weights that can still become t *)
Within(w, t) == \A m \in DOMAIN w : w[m] <= t[m]
RECURSIVE GrowTo(_, _, _, _, _, _, _)
GrowTo(metric, P, W, y, C, n, t) ==
  IF n = 0 \/ W = {} THEN W
  ELSE GrowTo(metric, P, UNION {{Add(w, m) : m \in {k \in BestAdditions(metric, P, w, y, C) : w[k] < t[k]}} : w \in W}, y, C, n - 1, t)
(* start: the best models by score *)
InitialSize(size, models) == LET k == IF size <= 10 THEN 1 ELSE 10 IN IF k < models THEN k ELSE models
Initial(score, size) ==
  LET M == DOMAIN score
      k == InitialSize(size, Cardinality(M))
      cut == CHOOSE v \in {score[m] : m \in M} :
               /\ Cardinality({m \in M : score[m] > v}) < k
               /\ Cardinality({m \in M : score[m] >= v}) >= k
      sure == {m \in M : score[m] > cut}
      tied == {m \in M : score[m] = cut}
  IN {[m \in M |-> IF m \in sure \cup T THEN 1 ELSE 0] : T \in kSubset(k - Cardinality(sure), tied)}
Possible(metric, P, score, y, C, size) ==
  Grow(metric, P, Initial(score, size), y, C, size - InitialSize(size, Cardinality(DOMAIN score)))
IsPossible(metric, P, score, y, C, size, t) ==
  t \in GrowTo(metric, P, {w \in Initial(score, size) : Within(w, t)}, y, C, size - InitialSize(size, Cardinality(DOMAIN score)), t)
=============================================================================
