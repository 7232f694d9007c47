------------------------------ MODULE MC_RowWise ------------------------------
(* Every history of calls: which rows, in which order, given in which form, asked in
   which way.  Row 3 has a value that training never saw. *)
EXTENDS RowWise
CONSTANTS Forms, Ways, MaxRows, MaxCalls
VARIABLES codes, log, h
vars == <<codes, log, h>>
Values == <<"a", "b", "z", "a">>
Train == <<"b", "a", "b">>
Init == codes = Codes(Train) /\ log = <<>> /\ h = <<>>
Lists == UNION {[1..n -> 1..Len(Values)] : n \in 1..MaxRows}
Call(rows, f, w) ==
  /\ log' = Append(log, [rows |-> rows, out |-> Answers(codes, Values, rows)])
  /\ h' = Append(h, [op |-> "call", rows |-> rows, form |-> f, way |-> w])
  /\ UNCHANGED codes
Next == Len(h) < MaxCalls /\ \E rows \in Lists, f \in Forms, w \in Ways : Call(rows, f, w)
(* the same row is answered the same in every call, wherever it stands *)
SameAnswer == \A a, b \in DOMAIN log : \A j \in DOMAIN log[a].rows, k \in DOMAIN log[b].rows :
                 log[a].rows[j] = log[b].rows[k] => log[a].out[j] = log[b].out[k]
(* rows with the same values are answered the same *)
SameValue == \A a, b \in DOMAIN log : \A j \in DOMAIN log[a].rows, k \in DOMAIN log[b].rows :
                 Values[log[a].rows[j]] = Values[log[b].rows[k]] => log[a].out[j] = log[b].out[k]
OnePerRow == \A a \in DOMAIN log : DOMAIN log[a].out = DOMAIN log[a].rows
Trained == codes = Codes(Train)
Emit == (Len(h') = MaxCalls) => EmitPath(h')
=============================================================================
