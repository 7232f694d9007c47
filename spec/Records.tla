------------------------------- MODULE Records -------------------------------
(***************************************************************************)
(* Text form of individuals and evaluation logs (C20).                      *)
(*                                                                          *)
(* A pipeline is a sequence of steps, the predictor first, each              *)
(*   [op |-> name, hps |-> <<value for each of its hyperparameters>>].       *)
(* Its text is a sequence of tokens; parsing is a partial function on token *)
(* sequences that inverts it.                                               *)
(***************************************************************************)
EXTENDS Util

(* ---- text form ---- *)
HpTokens(step) == [k \in 1..Len(step.hps) |-> <<"hp", step.op, k, step.hps[k]>>]
RECURSIVE Text(_)
Text(p) == IF p = <<>> THEN << <<"data">> >>
           ELSE << <<"op", Head(p).op>> >> \o Text(Tail(p)) \o HpTokens(Head(p)) \o << <<"end">> >>

(* ---- parsing: opening operators, data, then a block closed by "end" per operator ---- *)
IsTok(t, k) == t[1] = k
RECURSIVE Lead(_)
Lead(ts) == IF ts # <<>> /\ IsTok(Head(ts), "op") THEN 1 + Lead(Tail(ts)) ELSE 0
RECURSIVE Blocks(_, _)
Blocks(ts, cur) == \* blocks of hyperparameter tokens; an unfinished one is marked by an "open" token
  IF ts = <<>> THEN (IF cur = <<>> THEN <<>> ELSE << << <<"open">> >> >>)
  ELSE IF IsTok(Head(ts), "end") THEN <<cur>> \o Blocks(Tail(ts), <<>>)
  ELSE Blocks(Tail(ts), Append(cur, Head(ts)))
(* ar: number of hyperparameters of every known operator *)
Parse(ts, ar) ==
  LET n == Lead(ts)
      rest == SubSeq(ts, n + 2, Len(ts))
      bl == IF n + 1 <= Len(ts) /\ IsTok(ts[n + 1], "data") THEN Blocks(rest, <<>>) ELSE <<>>
      names == [k \in 1..n |-> ts[k][2]]
      ok == /\ n > 0 /\ Len(bl) = n
            /\ \A k \in 1..n : names[k] \in DOMAIN ar
            /\ \A k \in 1..n : LET b == bl[n + 1 - k] IN
                 Len(b) = ar[names[k]] /\ \A q \in 1..Len(b) : b[q][1] = "hp" /\ b[q][2] = names[k] /\ b[q][3] = q
  IN IF ~ok THEN <<>> ELSE [k \in 1..n |-> [op |-> names[k], hps |-> [q \in 1..Len(bl[n + 1 - k]) |-> bl[n + 1 - k][q][4]]]]

(* ---- the log and reports on it ---- *)
NewLog == [lines |-> <<>>]
LogOne(l, e) == [lines |-> Append(l.lines, e)]
NewReport == [rows |-> <<>>, pos |-> 0]
UpdateReport(rep, l) == [rows |-> rep.rows \o SubSeq(l.lines, rep.pos + 1, Len(l.lines)), pos |-> Len(l.lines)]
(* derived by a report from the evaluations, times in a small unit, scores as ranks per metric *)
BestSoFar(ranks) == [k \in 1..Len(ranks) |-> [m \in 1..Len(ranks[k]) |-> MaxOf({ranks[j][m] : j \in 1..k})]]
Ends(times) == LET first == MinOf({times[k].start : k \in 1..Len(times)})
               IN [k \in 1..Len(times) |-> times[k].start + times[k].dur - first]
FineOnes(lines, times) == LET ok == SelectSeq([k \in 1..Len(lines) |-> k], LAMBDA k : times[k].ok) IN [k \in 1..Len(ok) |-> lines[ok[k]][1]]
=============================================================================
