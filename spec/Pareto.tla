------------------------------- MODULE Pareto -------------------------------
(***************************************************************************)
(* Dominance, Pareto fronts and NSGA-II selection (C08; elimination in C03).*)
(* A point is a sequence of integers, one per objective, to be maximised.   *)
(***************************************************************************)
EXTENDS Util

GeqAll(a, b) == \A k \in DOMAIN a : a[k] >= b[k]
GtAll(a, b) == \A k \in DOMAIN a : a[k] > b[k]

(* ---- Pareto front: P is the sequence of all points offered so far. ---- *)
(* k is kept iff nothing else equals or exceeds it, except later duplicates *)
OnFront(P, k) == \A j \in DOMAIN P : j # k => ~(GeqAll(P[j], P[k]) /\ (P[j] # P[k] \/ j < k))
FrontOf(P) == {k \in DOMAIN P : OnFront(P, k)}

(* one update, as the implementation performs it: F are indices into P *)
UpdateFront(P, F, k) ==
  IF \E j \in F : GeqAll(P[j], P[k]) THEN F
  ELSE {j \in F : ~GeqAll(P[k], P[j])} \cup {k}

(* ---- ranks: peel off the points nobody (left) beats in every objective ---- *)
RECURSIVE Peel(_, _)
Peel(P, S) == IF S = {} THEN <<>>
              ELSE LET f == {k \in S : ~\E j \in S : GtAll(P[j], P[k])}
                   IN <<f>> \o Peel(P, S \ f)
Fronts(P) == Peel(P, DOMAIN P)
RankIn(F, k) == CHOOSE q \in DOMAIN F : k \in F[q]
Rank(P, k) == RankIn(Fronts(P), k)
(* independent definition: longest chain of strictly better points *)
RECURSIVE Chain(_, _)
Chain(P, k) == LET D == {j \in DOMAIN P : GtAll(P[j], P[k])}
               IN IF D = {} THEN 1 ELSE 1 + MaxOf({Chain(P, j) : j \in D})

(* ---- crowding distance within a front, when all values are distinct ---- *)
Distinct(P, S) == \A m \in DOMAIN P[CHOOSE k \in S : TRUE] :
                     \A a, b \in S : a # b => P[a][m] # P[b][m]
Lo(P, S, m) == MinOf({P[k][m] : k \in S})
Hi(P, S, m) == MaxOf({P[k][m] : k \in S})
RECURSIVE Prod(_, _, _, _)
Prod(P, S, M, skip) == IF M = {} THEN 1
   ELSE LET m == CHOOSE m \in M : TRUE
        IN (IF m = skip THEN 1 ELSE Hi(P, S, m) - Lo(P, S, m)) * Prod(P, S, M \ {m}, skip)
RECURSIVE SumGap(_, _, _, _, _)
SumGap(P, S, k, M, All) == IF M = {} THEN 0
   ELSE LET m == CHOOSE m \in M : TRUE
            up == MinOf({P[j][m] : j \in {j \in S : P[j][m] > P[k][m]}})
            dn == MaxOf({P[j][m] : j \in {j \in S : P[j][m] < P[k][m]}})
        IN (up - dn) * Prod(P, S, All, m) + SumGap(P, S, k, M \ {m}, All)
Extreme(P, S, k) == \E m \in DOMAIN P[k] : P[k][m] \in {Lo(P, S, m), Hi(P, S, m)}
INFTY == 2000000000
(* distance times the product of all spans; exact *)
Crowd(P, S, k) == IF Extreme(P, S, k) THEN INFTY ELSE SumGap(P, S, k, DOMAIN P[k], DOMAIN P[k])

(* ---- selection of n items ---- *)
SelectFails(P, n, sel) ==
  LET F == Fronts(P)
      chosen == RangeOf(sel)
      last == MaxOf({RankIn(F, k) : k \in chosen})
      L == F[last]
  IN Clause("n different members are selected",
            Len(sel) = n /\ Cardinality(chosen) = n /\ chosen \subseteq DOMAIN P)
     \cup Clause("no member is left out that beats a selected one in every objective",
            \A a \in DOMAIN P \ chosen : \A b \in chosen : ~GtAll(P[a], P[b]))
     \cup Clause("better fronts are selected entirely",
            \A k \in DOMAIN P : RankIn(F, k) < last => k \in chosen)
     \cup Clause("the less crowded members of the last front are preferred",
            (Distinct(P, L) /\ L \ chosen # {} /\ L \cap chosen # {}) =>
            MaxOf({Crowd(P, L, a) : a \in L \ chosen}) <= MinOf({Crowd(P, L, b) : b \in L \cap chosen}))

(* ---- parents ---- *)
MayBeParent(P, F, k) == \E j \in DOMAIN P \ {k} : RankIn(F, j) >= RankIn(F, k)
PairFails(P, pairs, n) ==
  LET F == Fronts(P) IN
  Clause("as many pairs as requested", Len(pairs) = n)
  \cup Clause("parents are members", \A q \in DOMAIN pairs : RangeOf(pairs[q]) \subseteq DOMAIN P)
  \cup Clause("the two parents differ", \A q \in DOMAIN pairs :
                 Len(pairs[q]) = 2 => pairs[q][1] # pairs[q][2])
  \cup Clause("a member ranked behind all others is never a parent",
         \A q \in DOMAIN pairs : \A k \in RangeOf(pairs[q]) : k \in DOMAIN P => MayBeParent(P, F, k))

(* ---- elimination: never remove one that is at least as good everywhere as
        a different member ---- *)
Removable(P, k) == ~\E j \in DOMAIN P \ {k} : GeqAll(P[k], P[j]) /\ P[k] # P[j]
=============================================================================
