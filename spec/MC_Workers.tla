---------------------------- MODULE MC_Workers ----------------------------
(* The memory controller as implemented: at each wait, workers that died are
   replaced; when the total exceeds the limit the largest worker is stopped and
   replaced if it is the only one or violations are rare, not replaced otherwise. *)
EXTENDS Workers
CONSTANTS N, Limit, Main, Levels, MaxLen
VARIABLES ws, viol, beh, h, stopped
vars == <<ws, viol, beh, h, stopped>>
Init == ws = 1..N /\ viol = 0 /\ beh = 0 /\ h = <<>> /\ stopped = <<>>
Fresh(S) == MaxOf(S \cup {N}) + 1 + Len(h) * 10
Wait(levels, dead, how) ==
  LET pos == [w \in ws |-> Cardinality({x \in ws : x <= w})]
      died == {w \in ws : pos[w] = dead}
      new == {Fresh(ws)}
      live == IF died = {} THEN ws ELSE (ws \ died) \cup new
      mem == [w \in live |-> IF w \in ws THEN levels[pos[w]] ELSE 1]
      over == Exceeds(Limit, Main, mem)
      worst == CHOOSE w \in live : MayStop(Limit, Main, mem, w)
      rare == (viol + 1) * 20 < viol + 1 + beh
  IN /\ Len(h) < MaxLen
     /\ h' = Append(h, [mem |-> levels, dead |-> dead, how |-> how])
     /\ IF ~over THEN ws' = live /\ viol' = viol /\ beh' = beh + 1 /\ stopped' = <<>>
        ELSE /\ stopped' = <<mem, worst>>
             /\ IF rare \/ Cardinality(live) = 1
                THEN ws' = (live \ {worst}) \cup {Fresh(live) + 1} /\ viol' = viol + 1 /\ beh' = beh + 1
                ELSE ws' = live \ {worst} /\ viol' = 0 /\ beh' = 1
Next == \E lv \in [1..Cardinality(ws) -> Levels], d \in 0..Cardinality(ws), how \in {"zombie", "gone"} :
           (d = 0 => how = "zombie") /\ Wait(lv, d, how)
AtLeastOne == ws # {}
NeverMore == Cardinality(ws) <= N
OnlyWorst == stopped # <<>> => MayStop(Limit, Main, stopped[1], stopped[2])
Emit == Len(h') = MaxLen => EmitPath(h')
=============================================================================
