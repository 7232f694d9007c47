--------------------------- MODULE MC_LibraryCrash ---------------------------
(***************************************************************************)
(* Saving an evaluation, step by step, where the search's timeout may be    *)
(* raised between any two steps (C10).  mem: evaluations whose models are   *)
(* in memory, disk: those with a complete cache file, heap: the offered.    *)
(***************************************************************************)
EXTENDS Library
CONSTANTS MaxLen, Scores, Limits, MaxInt
VARIABLES m, saved, heap, mem, disk, recorded, pc, cur, victim, ints, hist
vars == <<m, saved, heap, mem, disk, recorded, pc, cur, victim, ints, hist>>
View == <<m, saved, heap, mem, disk, recorded, pc, cur, victim, ints>>

Init == /\ m \in Limits /\ saved = <<>> /\ heap = {} /\ mem = {} /\ disk = {} /\ recorded = {}
        /\ pc = "idle" /\ cur = 0 /\ victim = 0 /\ ints = 0 /\ hist = <<[op |-> "m", m |-> m]>>

Begin(s) ==
  /\ pc = "idle" /\ Len(saved) < MaxLen
  /\ LET e == [id |-> Len(saved) + 1, score |-> <<s>>, ok |-> s # 0] IN
     /\ saved' = Append(saved, e) /\ cur' = e.id
     /\ mem' = mem \cup {e.id}
     /\ pc' = IF ~e.ok THEN "record" ELSE IF Cardinality(heap) < m THEN "write" ELSE "swap"
  /\ victim' = 0
  /\ hist' = Append(hist, [op |-> "save", s |-> s, int |-> FALSE])
  /\ UNCHANGED <<m, heap, disk, recorded, ints>>

(* room left: write first, offer afterwards *)
Write == /\ pc = "write" /\ disk' = disk \cup {cur} /\ pc' = "forget"
         /\ UNCHANGED <<m, saved, heap, mem, recorded, cur, victim, ints, hist>>
Forget == /\ pc = "forget" /\ mem' = mem \ {cur} /\ pc' = IF cur \in heap THEN "unlink" ELSE "push"
          /\ UNCHANGED <<m, saved, heap, disk, recorded, cur, victim, ints, hist>>
Push == /\ pc = "push" /\ heap' = heap \cup {cur} /\ pc' = "done"
        /\ UNCHANGED <<m, saved, mem, disk, recorded, cur, victim, ints, hist>>
(* no room: one atomic exchange on the heap *)
Swap == /\ pc = "swap"
        /\ \E h \in SaveNext(SubSeq(saved, 1, Len(saved) - 1), heap, saved[Len(saved)], m) :
             /\ heap' = h
             /\ IF cur \in h THEN victim' = (CHOOSE w \in heap \ h : TRUE) /\ pc' = "write"
                             ELSE victim' = cur /\ pc' = "record"
        /\ UNCHANGED <<m, saved, mem, disk, recorded, cur, ints, hist>>
Unlink == /\ pc = "unlink" /\ disk' = disk \ {victim} /\ pc' = "record"
          /\ UNCHANGED <<m, saved, heap, mem, recorded, cur, victim, ints, hist>>
Record == /\ pc = "record"
          /\ recorded' = recorded \cup {IF victim = 0 THEN cur ELSE victim}
          /\ mem' = IF victim \in {0, cur} THEN mem \ {cur} ELSE mem
          /\ pc' = "done"
          /\ UNCHANGED <<m, saved, heap, disk, cur, victim, ints, hist>>
Done == /\ pc = "done" /\ pc' = "idle"
        /\ UNCHANGED <<m, saved, heap, mem, disk, recorded, cur, victim, ints, hist>>
(* the timeout: whatever was done so far stays done *)
Interrupt == /\ pc # "idle" /\ ints < MaxInt /\ pc' = "idle" /\ ints' = ints + 1
             /\ hist' = [hist EXCEPT ![Len(hist)].int = TRUE]
             /\ UNCHANGED <<m, saved, heap, mem, disk, recorded, cur, victim>>
Next == (\E s \in Scores : Begin(s)) \/ Write \/ Forget \/ Push \/ Swap \/ Unlink \/ Record \/ Done \/ Interrupt

OfferedUsable == heap \subseteq mem \cup disk
OfferedOk == heap \subseteq OkIds(saved) /\ Cardinality(heap) <= m
NoneBetterLost == (ints = 0 /\ pc = "idle") => IsTop(saved, heap, m)
Emit == (pc' = "idle" /\ ints' > 0 /\ Len(hist') = MaxLen + 1) => EmitPath(hist')
=============================================================================
