------------------------------ MODULE Workers ------------------------------
(***************************************************************************)
(* The worker processes of a pool (C02).  mem maps each live worker to its   *)
(* memory; main is that of the main process, limit the allowed total        *)
(* (0: no limit).                                                            *)
(***************************************************************************)
EXTENDS Util
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Total(main, mem) == main + SumOver(mem, DOMAIN mem)
Exceeds(limit, main, mem) == limit > 0 /\ Total(main, mem) > limit
(* a worker that may be stopped in this situation *)
MayStop(limit, main, mem, w) ==
  /\ Exceeds(limit, main, mem)
  /\ w \in DOMAIN mem /\ \A x \in DOMAIN mem : mem[x] <= mem[w]
=============================================================================
