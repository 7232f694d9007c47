----------------------------- MODULE Pipelines -----------------------------
(***************************************************************************)
(* Pipelines of a search space and the edits which variation may make (C06).*)
(* A pipeline is a sequence of steps, predictor first, data end last; a     *)
(* step is [p |-> operator, h |-> << <<slot, value>>, ... >>], slots sorted. *)
(* A space is [prims |-> [operator -> [out, slots]], terms |-> [slot -> values]]. *)
(***************************************************************************)
EXTENDS Util

StepFits(sp, s) ==
  /\ s.p \in DOMAIN sp.prims
  /\ [j \in DOMAIN s.h |-> s.h[j][1]] = sp.prims[s.p].slots
  /\ \A j \in DOMAIN s.h : s.h[j][1] \in DOMAIN sp.terms /\ s.h[j][2] \in RangeOf(sp.terms[s.h[j][1]])

Out(sp, s) == sp.prims[s.p].out

WellFormed(sp, a) ==
  /\ Len(a) >= 1
  /\ \A k \in DOMAIN a : StepFits(sp, a[k])
  /\ \A k \in DOMAIN a : Out(sp, a[k]) = (IF k = 1 THEN "prediction" ELSE "data")

Fits(a, max) == max = 0 \/ Len(a) <= max       \* 0: no limit

(* ---- edits, declaratively ---- *)
Drop(a, k) == SubSeq(a, 1, k - 1) \o SubSeq(a, k + 1, Len(a))
Shrunk(a, b) == Len(b) >= 1 /\ Len(b) < Len(a) /\ b = SubSeq(a, 1, Len(b))
Inserted(a, b) == Len(b) = Len(a) + 1 /\ \E k \in 2..Len(b) : Drop(b, k) = a
DiffSteps(a, b) == {k \in DOMAIN a : a[k] # b[k]}
DiffSlots(s, t) == {j \in DOMAIN s.h : s.h[j] # t.h[j]}
StepReplaced(a, b) == Len(a) = Len(b) /\ Cardinality(DiffSteps(a, b)) = 1
                      /\ \A k \in DiffSteps(a, b) : a[k].p # b[k].p
SameShape(s, t) == s.p = t.p /\ Len(s.h) = Len(t.h)
SlotChanged(a, b) ==
  Len(a) = Len(b) /\ Cardinality(DiffSteps(a, b)) = 1
  /\ \A k \in DiffSteps(a, b) : SameShape(a[k], b[k]) /\ Cardinality(DiffSlots(a[k], b[k])) = 1
                                /\ \A j \in DiffSlots(a[k], b[k]) : a[k].h[j][1] = b[k].h[j][1]

SlotsOf(a) == UNION {RangeOf(a[k].h) : k \in DOMAIN a}
NewSlots(a, c) == UNION {{c[k].h[j] : j \in DiffSlots(a[k], c[k])} : k \in DiffSteps(a, c)}
TookSlot(a, b, c) == SlotChanged(a, c) /\ NewSlots(a, c) \subseteq SlotsOf(b)
TookPrep(a, b, c) == \E i \in 1..(Len(a) - 1), j \in 1..(Len(b) - 1) :
                        c = SubSeq(a, 1, i) \o SubSeq(b, j + 1, Len(b))
Crossed(a, b, c) == TookSlot(a, b, c) \/ TookSlot(b, a, c) \/ TookPrep(a, b, c) \/ TookPrep(b, a, c)

EditOK(origin, ps, c) ==
  CASE origin = "mut_shrink" -> Len(ps) = 1 /\ Shrunk(ps[1], c)
    [] origin = "mut_insert" -> Len(ps) = 1 /\ Inserted(ps[1], c)
    [] origin = "mut_replace_primitive" -> Len(ps) = 1 /\ StepReplaced(ps[1], c)
    [] origin = "mut_replace_terminal" -> Len(ps) = 1 /\ SlotChanged(ps[1], c)
    [] origin = "cx" -> Len(ps) = 2 /\ Crossed(ps[1], ps[2], c)
    [] origin = "new" -> Len(ps) = 0
    [] OTHER -> FALSE

(* ---- everything in a (small) space ---- *)
RECURSIVE Fillings(_, _)
Fillings(sp, slots) == IF slots = <<>> THEN {<<>>}
   ELSE {<< <<Head(slots), v>> >> \o f : v \in RangeOf(sp.terms[Head(slots)]), f \in Fillings(sp, Tail(slots))}
Steps(sp, out) == UNION {{[p |-> q, h |-> f] : f \in Fillings(sp, sp.prims[q].slots)}
                         : q \in {q \in DOMAIN sp.prims : sp.prims[q].out = out}}
RECURSIVE Preps(_, _)
Preps(sp, n) == IF n = 0 THEN {<<>>}
                ELSE Preps(sp, n - 1) \cup {Append(s, t) : s \in {s \in Preps(sp, n - 1) : Len(s) = n - 1},
                                                           t \in Steps(sp, "data")}
AllPipelines(sp, max) == {<<l>> \o s : l \in Steps(sp, "prediction"), s \in Preps(sp, max - 1)}
=============================================================================
