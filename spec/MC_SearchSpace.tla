--------------------------- MODULE MC_SearchSpace ---------------------------
(* Two configurations are written entry by entry, in any order. *)
EXTENDS SearchSpace
CONSTANTS Ops, Hps, Vals, Shared, MaxLen
VARIABLES c, d, h
vars == <<c, d, h>>
Init == c = Empty /\ d = Empty /\ h = <<>>
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
AddShared(cf, n, V) == [cf EXCEPT !.shared = With(@, n, V)]
AddOp(cf, k, hp, V, u) == [cf EXCEPT !.ops = With(@, k, [kind |-> "x", hps |-> IF hp = "" THEN EmptyFn ELSE With(EmptyFn, hp, V), uses |-> u])]
Sets == {V \in SUBSET Vals : V # {}}
Edit(which) ==
  LET cf == IF which = 1 THEN c ELSE d
      Put(new, ev) == (IF which = 1 THEN c' = new /\ d' = d ELSE d' = new /\ c' = c) /\ h' = Append(h, ev)
  IN \/ \E n \in Shared \ DOMAIN cf.shared, V \in Sets :
          Put(AddShared(cf, n, V), [w |-> which, t |-> "shared", n |-> n, v |-> V, u |-> {}, p |-> ""])
     \/ \E k \in Ops \ DOMAIN cf.ops, hp \in Hps \cup {""}, u \in SUBSET Shared : \E V \in (IF hp = "" THEN {{}} ELSE Sets) :
          Put(AddOp(cf, k, hp, V, u), [w |-> which, t |-> "op", n |-> k, v |-> V, u |-> u, p |-> hp])
Next == Len(h) < MaxLen /\ \E w \in {1, 2} : Edit(w)

M == Merge(c, d)
MergeSymmetric == M = Merge(d, c)
MergeIdempotent == Merge(M, c) = M /\ Merge(c, c) = c
Monotone(a, b) == /\ DOMAIN a.ops \subseteq DOMAIN b.ops
                  /\ \A k \in DOMAIN a.ops : /\ DOMAIN a.ops[k].hps \subseteq DOMAIN b.ops[k].hps
                                             /\ \A n \in DOMAIN a.ops[k].hps : a.ops[k].hps[n] \subseteq b.ops[k].hps[n]
                                             /\ a.ops[k].uses \subseteq b.ops[k].uses
                  /\ \A n \in DOMAIN a.shared : a.shared[n] \subseteq Get(b.shared, n)
MergeContainsBoth == Monotone(c, M) /\ Monotone(d, M)
OneOperatorPerClass == \A o1, o2 \in Offers(M) : o1.name = o2.name => o1 = o2
OffersAll == {o.name : o \in Offers(M)} = DOMAIN M.ops
NothingInvented == \A k \in DOMAIN M.ops : \A s \in Slots(M.ops[k]) : \A v \in Choices(M, k, s) :
  \/ s[1] = "own" /\ (\E cf \in {c, d} : k \in DOMAIN cf.ops /\ v \in Get(cf.ops[k].hps, s[2]))
  \/ s[1] = "shared" /\ (\E cf \in {c, d} : v \in Get(cf.shared, s[2]))
Emit == Len(h') = MaxLen => EmitPath(h')
=============================================================================
