----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Generic conformance check.  A module that defines                        *)
(*   Start(run)      the abstract state in which a recorded run begins,     *)
(*   Fails(st, e)    the names of the clauses that event e breaks in st,    *)
(*   Apply(st, e)    the abstract state after e,                            *)
(*   EndFails(st, run)  clauses broken by a run that ends in st,            *)
(* is bound to the implementation by instantiating this module.  Every run  *)
(* (one line of the ndjson file $TRACE, its events in field "ev") is one    *)
(* initial state; every event is one transition.  The verdict is total: for *)
(* each run either DONE or VIOL with the failing clauses is printed.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Runs, Start(_), Fails(_, _), Apply(_, _), EndFails(_, _)
VARIABLES r, i, st

(* What the harness records when the code did not produce events at all. *)
Broken(run) == Len(run.ev) > 0 /\ run.ev[1].op \in {"hang", "crash", "raised"}

Init == /\ r \in 1..Len(Runs)
        /\ i = 1
        /\ st = IF Broken(Runs[r]) THEN <<>> ELSE Start(Runs[r])

Ev == Runs[r].ev

Step == /\ i >= 1 /\ i <= Len(Ev)
        /\ IF Ev[i].op \in {"hang", "crash", "raised"}
           THEN /\ PrintT("VIOL " \o ToJson([rid |-> Runs[r].rid, i |-> i, f |-> {"outcome: " \o Ev[i].op}]))
                /\ i' = 0 /\ st' = <<>> /\ UNCHANGED r
           ELSE LET f == Fails(st, Ev[i]) IN
                IF f # {}
                THEN /\ PrintT("VIOL " \o ToJson([rid |-> Runs[r].rid, i |-> i, f |-> f]))
                     /\ i' = 0 /\ st' = <<>> /\ UNCHANGED r
                ELSE /\ st' = Apply(st, Ev[i])
                     /\ i' = i + 1 /\ UNCHANGED r

End == /\ i = Len(Ev) + 1
       /\ LET f == EndFails(st, Runs[r]) IN
          IF f # {} THEN PrintT("VIOL " \o ToJson([rid |-> Runs[r].rid, i |-> i, f |-> f]))
                    ELSE PrintT("DONE " \o ToString(Runs[r].rid))
       /\ i' = 0 /\ st' = <<>> /\ UNCHANGED r

Next == Step \/ End
=============================================================================
