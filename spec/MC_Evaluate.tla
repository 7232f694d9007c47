---------------------------- MODULE MC_Evaluate ----------------------------
(* Cross validation as implemented: per fold fit, then score; then predict each
   fold again; a fault (or timeout) may strike at any of these calls. *)
EXTENDS Evaluate
CONSTANTS N, K, Subs
SubsAll == {[kind |-> "none", v |-> 0], [kind |-> "rows", v |-> 1], [kind |-> "rows", v |-> 2], [kind |-> "frac", v |-> 500], [kind |-> "frac", v |-> 1000]}
VARIABLES fold, k, phase, est, pred, res, sub, calls
vars == <<fold, k, phase, est, pred, res, sub, calls>>
Y == [x \in 1..N |-> x % 3]
OutOf(train, x) == LET c == (Cardinality(train) + 2 * x + SumSeq([q \in 1..N |-> IF q \in train THEN q ELSE 0])) % 3
                   IN [j \in 1..3 |-> IF j - 1 = c THEN 1 ELSE 2]
AsSeq(S) == LET RECURSIVE f(_)
                f(T) == IF T = {} THEN <<>> ELSE LET m == MinOf(T) IN <<m>> \o f(T \ {m}) IN f(S)
Init == /\ fold \in {f \in [1..N -> 1..K] : \A j \in 1..K : \E x \in 1..N : f[x] = j}
        /\ sub \in Subs /\ k = 1 /\ phase = "fit" /\ est = <<>> /\ pred = [x \in 1..N |-> <<>>] /\ res = "running" /\ calls = 0
Test(j) == {x \in 1..N : fold[x] = j}
Fit == /\ phase = "fit" /\ res = "running"
       /\ \E T \in SUBSET ((1..N) \ Test(k)) :
            LET e == [train |-> AsSeq(T), trainy |-> [p \in 1..Cardinality(T) |-> Y[AsSeq(T)[p]]],
                      tested |-> AsSeq(Test(k)), out |-> [x \in 1..N |-> OutOf(T, x)]]
            IN SizeOK(N, e, sub) /\ est' = Append(est, e)
       /\ phase' = "score" /\ calls' = calls + 1 /\ UNCHANGED <<fold, k, pred, res, sub>>
Score == /\ phase = "score" /\ res = "running" /\ calls' = calls + 1
         /\ IF k < K THEN k' = k + 1 /\ phase' = "fit" ELSE k' = 1 /\ phase' = "predict"
         /\ UNCHANGED <<fold, est, pred, res, sub>>
Predict == /\ phase = "predict" /\ res = "running" /\ calls' = calls + 1
           /\ pred' = [x \in 1..N |-> IF fold[x] = k THEN est[k].out[x] ELSE pred[x]]
           /\ IF k < K THEN k' = k + 1 /\ UNCHANGED <<phase, res>> ELSE res' = "ok" /\ UNCHANGED <<k, phase>>
           /\ UNCHANGED <<fold, est, sub>>
Fault == /\ res = "running" /\ res' = "failed" /\ est' = <<>> /\ pred' = [x \in 1..N |-> <<>>] /\ calls' = calls + 1
         /\ UNCHANGED <<fold, k, phase, sub>>
Next == Fit \/ Score \/ Predict \/ Fault
Honest == res = "ok" => /\ HeldOut(est) /\ EachRowOnce(N, est) /\ PredictionsMatch(N, est, pred, TRUE, TRUE)
                        /\ \A j \in DOMAIN est : SizeOK(N, est[j], sub) /\ LabelsKept(est[j], Y)
(* the mean over folds equals the score of the returned predictions, fold by fold *)
ScoreOfPredictions == res = "ok" =>
   \A m \in {"accuracy", "neg_log_loss"} :
      SumFolds(m, Y, est) = SumFolds(m, Y, [j \in 1..K |-> [est[j] EXCEPT !.out = pred]])
FailedIsEmpty == res = "failed" => est = <<>> /\ \A x \in 1..N : pred[x] = <<>>
Emit == (res' # "running" /\ res = "running") =>
          EmitPath(<<[k |-> K, sub |-> sub, fault |-> IF res' = "failed" THEN calls' ELSE 0]>>)
=============================================================================
