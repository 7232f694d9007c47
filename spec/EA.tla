--------------------------------- MODULE EA ---------------------------------
(***************************************************************************)
(* Asynchronous evolutionary search (C03).  The population is a sequence of *)
(* [id, v]; v is the sequence of objective values.                          *)
(***************************************************************************)
EXTENDS Pareto

Ids(pop) == {pop[k].id : k \in DOMAIN pop}
Values(pop) == [k \in DOMAIN pop |-> pop[k].v]

(* populations that may follow when x completes successfully *)
DropAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
After(pop, x, size) ==
  LET p == Append(pop, x)
  IN IF Len(p) <= size THEN {p}
     ELSE {DropAt(p, k) : k \in {k \in DOMAIN p : Removable(Values(p), k)}}

(* the observed population q is a permitted successor of pop *)
AfterFails(pop, ok, x, size, q) ==
  LET p == IF ok THEN Append(pop, x) ELSE pop
      gone == Ids(p) \ Ids(q)
  IN Clause("the population never exceeds its size", Len(q) <= size)
     \cup Clause("the population has no member twice", Cardinality(Ids(q)) = Len(q))
     \cup Clause("the population contains only individuals evaluated successfully in this search", Ids(q) \subseteq Ids(p))
     \cup Clause("members keep the scores of their evaluation",
            \A a \in DOMAIN q : \A b \in DOMAIN p : q[a].id = p[b].id => q[a].v = p[b].v)
     \cup Clause("a member is lost only when the population would grow too large",
            Cardinality(gone) = (IF Len(p) > size THEN 1 ELSE 0))
     \cup Clause("the lost member is not at least as good as a different one",
            \A b \in DOMAIN p : p[b].id \in gone => Removable(Values(p), b))
=============================================================================
