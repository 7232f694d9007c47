----------------------------- MODULE MC_Halving -----------------------------
(* All completion orders and outcomes; a promotion goes to any due rung. *)
EXTENDS Halving
CONSTANTS Eta, Min, Max, Skip, NInit, Workers, MaxLen, Vals, MaxFull
VARIABLES out, nsub, done, promoted, h
vars == <<out, nsub, done, promoted, h>>
C == Cfg([eta |-> Eta, min |-> Min, max |-> Max, skip |-> Skip])
DropAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Init == /\ out = [k \in 1..NInit |-> [id |-> k, rung |-> Skip]] /\ nsub = NInit
        /\ done = NoResults(C) /\ promoted = NoneDone(C) /\ h = <<>>
Stop == MaxFull > 0 /\ Len(done[Top(C)]) >= MaxFull
(* the highest due rung is served first *)
StartJob(o, d) ==
  LET R == DueRungs(C, d, promoted) IN
  IF R = {} THEN /\ out' = Append(o, [id |-> nsub + 1, rung |-> Skip]) /\ nsub' = nsub + 1 /\ UNCHANGED promoted
  ELSE LET k == MaxOf(R) b == MinOf(BestOf(d, promoted, k)) IN
       /\ out' = Append(o, [id |-> b, rung |-> k + 1]) /\ UNCHANGED nsub
       /\ promoted' = [promoted EXCEPT ![k] = @ \cup {b}]
Next == /\ Len(h) < MaxLen /\ ~Stop
        /\ \E k \in 1..Workers, v \in Vals \cup {0} :      \* 0: raised, no result
             LET j == out[k]
                 d == IF v = 0 THEN done ELSE [done EXCEPT ![j.rung] = Append(@, [id |-> j.id, v |-> v])]
             IN /\ done' = d
                /\ StartJob(DropAt(out, k), d)
                /\ h' = Append(h, [k |-> k, out |-> IF v = 0 THEN "exc" ELSE "ok", v |-> <<v>>])
Quota == \A k \in Rungs(C) : Cardinality(promoted[k]) <= Len(done[k]) \div Eta
NothingDue == DueRungs(C, done, promoted) = {} \/ \E j \in DOMAIN out : out[j].rung > Skip
OnlyPromotedAbove == \A k \in Rungs(C) : k > Skip =>
   {done[k][j].id : j \in DOMAIN done[k]} \subseteq promoted[k - 1]
OncePerRung == \A k \in Rungs(C) : Cardinality({done[k][j].id : j \in DOMAIN done[k]}) = Len(done[k])
ConstantJobs == Len(out) = NInit
NotWorse == [][\A k \in Rungs(C) : \A p \in promoted'[k] \ promoted[k] :
   \A j \in Waiting(done', promoted', k) : \E q \in DOMAIN done'[k] : done'[k][q].id = p /\ done'[k][q].v >= done'[k][j].v]_vars
Emit == (Len(h') = MaxLen) => EmitPath(h')
=============================================================================
