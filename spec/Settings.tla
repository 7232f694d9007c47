------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* What the settings of an AutoML object mean (C29).  A setting that is not  *)
(* given ("unset") has its documented default, a given one is used as given. *)
(***************************************************************************)
EXTENDS Util
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
(* worker processes; jobs is "unset", "none", "all" or "n" with number c.n *)
Workers(c) == CASE c.jobs \in {"unset", "none"} -> Max2(1, c.cores \div 2)
                [] c.jobs = "all" -> c.cores
                [] OTHER -> c.n
Post(c) == IF c.post # "unset" THEN c.post
           ELSE IF c.preset \in {"unset", "simple"} THEN "best"
           ELSE IF c.preset = "performance" THEN "ensemble" ELSE "error"
Method(c) == IF c.search = "unset" THEN "ea" ELSE c.search
Regularised(c) == c.length # "off"
Arity(c) == c.metrics + (IF Regularised(c) THEN 1 ELSE 0)
(* maximum number of steps of a starting individual, and of any other (0: no limit) *)
MaxSteps(c) == IF c.steps > 0 THEN c.steps ELSE IF c.preproc THEN 0 ELSE 1
MaxStart(c) == IF MaxSteps(c) = 0 THEN 3 ELSE MaxSteps(c)
Rejected(c) == Post(c) = "error" \/ (~c.preproc /\ c.steps > 1)
(* evolutionary search: 0 is unset *)
PopSize(c) == IF c.pop > 0 THEN c.pop ELSE 50
(* halving: resources in rows (unit "rows") or in 1/1000 of the data (unit "part"); -1 is unset *)
Eta(c) == IF c.eta > 0 THEN c.eta ELSE 3
MinRes(c) == IF c.min >= 0 THEN c.min ELSE 125
MaxRes(c) == IF c.max >= 0 /\ ~(c.unit = "rows" /\ c.max > c.rows) THEN c.max ELSE 1000
Skip(c) == Max2(c.skip, 0)
Unit(c) == IF c.unit = "rows" /\ c.max > c.rows THEN "part" ELSE c.unit
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
TopRung(c) == CHOOSE k \in 0..20 : MinRes(c) * Pow(Eta(c), k) >= MaxRes(c) /\ \A j \in 0..(k - 1) : MinRes(c) * Pow(Eta(c), j) < MaxRes(c)
Res(c, k) == Min2(MinRes(c) * Pow(Eta(c), k), MaxRes(c))
(* rows a pipeline is trained on, of a fold's training part of t rows *)
Size(c, k, t) == IF Unit(c) = "rows" THEN Min2(Res(c, k), t) ELSE Min2((Res(c, k) * t) \div 1000, t)
Sizes(c, t) == {Size(c, k, t) : k \in Skip(c)..TopRung(c)}
(* operators offered to the search: nearest neighbours are left out for large data (more than
   6,000,000 cells) and polynomial features for more than 50 features, if models are stored, and
   if something else is left *)
Drop(s, x) == IF s \ {x} = {} THEN s ELSE s \ {x}
Predictors(all, store, d) == IF store /\ d.cells > 6000000 THEN Drop(all, "knn") ELSE all
Steps(all, store, d) == IF store /\ d.features > 50 THEN Drop(all, "poly") ELSE all
=============================================================================
