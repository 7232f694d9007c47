------------------------------ MODULE MC_Output ------------------------------
(* Construct, fit and clean up as implemented: everything is written during a fit
   and what was not asked for is removed at its end. *)
EXTENDS Output
CONSTANTS MaxLen, Pres, Bads
VARIABLES d, store, alive, h
vars == <<d, store, alive, h>>
Init == d = Gone /\ store = "nothing" /\ alive = FALSE /\ h = <<>>
More == Len(h) < MaxLen
Construct == /\ h = <<>> /\ \E pre \in Pres, s \in Stores, bad \in Bads :
               /\ h' = <<[op |-> "construct", pre |-> pre, store |-> s, bad |-> bad]>>
               /\ store' = s
               /\ IF Rejects(pre) \/ bad # "" THEN alive' = FALSE /\ d' = Gone
                  ELSE alive' = TRUE /\ d' = [exists |-> TRUE, logs |-> TRUE, cache |-> TRUE]
Written == [exists |-> TRUE, logs |-> TRUE, cache |-> TRUE]
CleanKind(s) == CASE s = "nothing" -> "all" [] s = "logs" -> "evaluations" [] s = "models" -> "logs" [] OTHER -> "none"
Fit == /\ alive /\ More /\ h' = Append(h, [op |-> "fit"]) /\ d' = Clean(Written, CleanKind(store)) /\ UNCHANGED <<store, alive>>
CleanUp == /\ alive /\ More /\ \E w \in {"logs", "evaluations", "all"} :
                h' = Append(h, [op |-> "cleanup", which |-> w]) /\ d' = Clean(d, w) /\ UNCHANGED <<store, alive>>
Next == Construct \/ Fit \/ CleanUp
LastIs(o) == h # <<>> /\ h[Len(h)].op = o
FitKeeps == LastIs("fit") => d = AfterFit(d, store)
NoDirNoFiles == ~d.exists => ~d.logs /\ ~d.cache
Emit == (Len(h') = MaxLen \/ (h = <<>> /\ ~alive')) => EmitPath(h')
=============================================================================
