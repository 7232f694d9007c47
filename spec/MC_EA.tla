------------------------------- MODULE MC_EA -------------------------------
(* All completion orders, outcomes and restart decisions of small searches. *)
EXTENDS EA
CONSTANTS Workers, Size, NStart, MaxN, Vals, Dim, MaxRestarts, Outs
VARIABLES pop, out, nsub, good, h, rst
vars == <<pop, out, nsub, good, h, rst>>
Seq1(a, n) == [k \in 1..n |-> a + k]
Init == /\ pop = <<>> /\ out = Seq1(0, NStart) /\ nsub = NStart /\ good = <<>> /\ h = <<>> /\ rst = 0
Submit(o, n) == IF Len(o) - Workers <= 1 THEN Append(o, n + 1) ELSE o
Complete(k, oc, v, again) ==
  LET id == out[k]
      o1 == DropAt(out, k)
      o2 == Submit(o1, nsub)
      n2 == nsub + Len(o2) - Len(o1)
  IN /\ IF oc = "ok" THEN \E q \in After(pop, [id |-> id, v |-> v], Size) : pop' = IF again THEN <<>> ELSE q
        ELSE pop' = IF again THEN <<>> ELSE pop
     /\ good' = IF again THEN <<>> ELSE IF oc = "ok" THEN Append(good, [id |-> id, v |-> v]) ELSE good
     /\ out' = IF again THEN o2 \o Seq1(n2, Size) ELSE o2
     /\ nsub' = IF again THEN n2 + Size ELSE n2
     /\ rst' = IF again THEN rst + 1 ELSE rst
     /\ h' = Append(h, [k |-> k, out |-> oc, v |-> v, again |-> again])
Zero == [m \in 1..Dim |-> 0]
Next == /\ Len(h) < MaxN
        /\ \E k \in 1..MinOf({Workers, Len(out)}), again \in BOOLEAN :
             /\ again => rst < MaxRestarts
             /\ \/ \E oc \in Outs : Complete(k, oc, Zero, again)
                \/ \E v \in [1..Dim -> Vals] : Complete(k, "ok", v, again)
Bounded == Len(pop) <= Size
OnlyGood == \A k \in DOMAIN pop : \E j \in DOMAIN good : good[j] = pop[k]
GainsAll == Len(pop) = MinOf({Size, Len(good)})
NeverIdle == Len(out) >= 1
(* with one objective the population is exactly the best ones since the restart *)
BetterThan(v) == {j \in DOMAIN good : good[j].v[1] > v}
TopKept == Dim = 1 => \A j \in DOMAIN good :
              Cardinality(BetterThan(good[j].v[1])) < Size =>
                 \E k \in DOMAIN pop : pop[k].v[1] >= good[j].v[1] /\ \A x \in BetterThan(good[j].v[1]) : good[x].id \in Ids(pop)
(* with several, the best in each objective that nothing else matches stays *)
NonDominatedKept == \A j \in DOMAIN good :
   (\A x \in DOMAIN good : x # j => GeqAll(good[j].v, good[x].v) /\ good[j].v # good[x].v) => good[j].id \in Ids(pop)
Emit == (Len(h') = MaxN) => EmitPath(h')
=============================================================================
