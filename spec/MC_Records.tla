----------------------------- MODULE MC_Records -----------------------------
(* A pipeline is built step by step; then its text is cut after any token. *)
EXTENDS Records
CONSTANTS Pre, Pred, Vals, MaxSteps
VARIABLES p, cut, h
vars == <<p, cut, h>>
Ar == [o \in Pre \cup Pred |-> CASE o = "A" -> 0 [] o = "P" -> 2 [] OTHER -> 1]
HpsOf(o) == [1..Ar[o] -> Vals]
Init == /\ p \in {<<[op |-> o, hps |-> v]>> : o \in Pred, v \in UNION {HpsOf(x) : x \in Pred}}
        /\ Len(p[1].hps) = Ar[p[1].op]
        /\ cut = -1 /\ h = <<>>
Extend == /\ cut = -1 /\ Len(p) < MaxSteps
          /\ \E o \in Pre : \E v \in HpsOf(o) : p' = Append(p, [op |-> o, hps |-> v])
          /\ UNCHANGED <<cut, h>>
Cut == /\ cut = -1 /\ cut' \in 0..Len(Text(p)) /\ UNCHANGED p
       /\ h' = <<[len |-> Len(p), cut |-> cut', of |-> Len(Text(p))]>>
Next == Extend \/ Cut
RoundTrip == Parse(Text(p), Ar) = p
PrefixesRejected == (cut # -1 /\ cut < Len(Text(p))) => Parse(SubSeq(Text(p), 1, cut), Ar) = <<>>
UnknownRejected == \A o \in {p[k].op : k \in 1..Len(p)} : Parse(Text(p), [x \in DOMAIN Ar \ {o} |-> Ar[x]]) = <<>>
Emit == cut' # -1 => EmitPath(h')
=============================================================================
