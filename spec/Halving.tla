------------------------------ MODULE Halving ------------------------------
(***************************************************************************)
(* Asynchronous successive halving (C05).  c: [eta, min, max, skip] (integer*)
(* resources); rungs are skip..Top(c); done[rung] is the sequence of        *)
(* [id, v] whose evaluation returned a result, promoted[rung] a set of ids. *)
(***************************************************************************)
EXTENDS Util
RECURSIVE Grow(_, _, _)
Grow(c, x, n) == IF n = 0 \/ x >= c.max THEN MinOf({x, c.max}) ELSE Grow(c, x * c.eta, n - 1)
Resource(c, rung) == Grow(c, c.min, rung)
TopOf(c) == CHOOSE k \in 0..30 : Resource(c, k) >= c.max /\ \A j \in 0..(k - 1) : Resource(c, j) < c.max
(* a configuration with its top rung worked out *)
Cfg(c) == [eta |-> c.eta, min |-> c.min, max |-> c.max, skip |-> c.skip, top |-> TopOf(c)]
Top(c) == c.top
Rungs(c) == c.skip..Top(c)
NoResults(c) == [k \in Rungs(c) |-> <<>>]
NoneDone(c) == [k \in Rungs(c) |-> {}]

Waiting(done, promoted, k) == {j \in DOMAIN done[k] : done[k][j].id \notin promoted[k]}
Due(c, done, promoted, k) == /\ k < Top(c)
                             /\ Len(done[k]) \div c.eta > Cardinality(promoted[k])
                             /\ Waiting(done, promoted, k) # {}
BestOf(done, promoted, k) ==
  {done[k][j].id : j \in {j \in Waiting(done, promoted, k) :
                            \A x \in Waiting(done, promoted, k) : done[k][x].v <= done[k][j].v}}
DueRungs(c, done, promoted) == {k \in Rungs(c) : Due(c, done, promoted, k)}
Highest(c, done) == LET R == {k \in Rungs(c) : done[k] # <<>>} IN IF R = {} THEN c.skip ELSE MaxOf(R)
Answer(c, done) == [j \in DOMAIN done[Highest(c, done)] |-> done[Highest(c, done)][j].id]
=============================================================================
