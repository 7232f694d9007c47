-------------------------------- MODULE Util --------------------------------
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

(* A clause: its name if the condition does not hold, nothing otherwise. *)
Clause(name, holds) == IF holds THEN {} ELSE {name}

RangeOf(s) == {s[k] : k \in DOMAIN s}
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
Has(rec, f) == f \in DOMAIN rec
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)

(* Lexicographic comparison of equally long integer sequences. *)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> \/ b = <<>> THEN Len(a) < Len(b)
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
                 ELSE LexLess(Tail(a), Tail(b))

(* Emit a path of the model as an input for the implementation. *)
EmitPath(h) == PrintT("PATH " \o ToJson(h))

IsPermutation(a, b) == /\ Len(a) = Len(b)
                       /\ \A x \in RangeOf(a) \cup RangeOf(b) : Count(a, x) = Count(b, x)
=============================================================================
