------------------------- MODULE LibraryCrashTrace -------------------------
(* Recorded histories with interrupted saves (C10).
   save: id, score, ok, int (interrupted), raised, obs (everything offered among
   the best: id, est, complete, score), ids (recorded evaluations).            *)
EXTENDS Library, TraceUtil
VARIABLES r, i, st

Start(run) == [m |-> run.m, saved |-> <<>>, opt |-> {}, offered |-> {}]

Fails(s, e) ==
  IF e.op # "save" THEN {"unknown event"} ELSE
  LET s2 == Append(s.saved, [id |-> e.id, score |-> e.score, ok |-> e.ok])
      off == {e.obs[k].id : k \in DOMAIN e.obs}
      opt2 == IF e.int THEN s.opt \cup {e.id} \cup Worst(s2, s.offered) ELSE s.opt
  IN Clause("saving works again after an interruption", e.int \/ e.raised = "")
     \cup Clause("an interruption is passed on", e.int => e.raised = "TimeoutException")
     \cup Clause("querying works after an interruption", e.qraised = "")
     \cup Clause("offered evaluations have complete predictions and estimators",
            \A k \in DOMAIN e.obs : e.obs[k].complete /\ e.obs[k].est = e.obs[k].id)
     \cup Clause("the predictions of all offered evaluations are for the same rows",
            \A j, k \in DOMAIN e.obs : e.obs[j].rows = e.obs[k].rows)
     \cup Clause("scores are unchanged",
            \A k \in DOMAIN e.obs : e.obs[k].id \in Ids(s2) /\ Rec(s2, e.obs[k].id).score = e.obs[k].score)
     \cup Clause("only successful evaluations are offered, at most m, none twice",
            off \subseteq OkIds(s2) /\ Cardinality(off) = Len(e.obs) /\ Len(e.obs) <= Limit(s.m, Len(s2)))
     \cup Clause("at most one evaluation is displaced", Cardinality(s.offered \ off) <= 1)
     \cup Clause("only the evaluation being saved and the one displaced may be missing from the best",
            IF e.int THEN s.offered \ off \subseteq Worst(s2, s.offered)
            ELSE s.opt = {} => IsTop(s2, off, s.m))
     \cup Clause("all other evaluations stay recorded, once",
            (Ids(s2) \ opt2) \subseteq RangeOf(e.ids) /\ Cardinality(RangeOf(e.ids)) = Len(e.ids))

Apply(s, e) ==
  LET s2 == Append(s.saved, [id |-> e.id, score |-> e.score, ok |-> e.ok]) IN
  [s EXCEPT !.saved = s2,
            !.opt = IF e.int THEN @ \cup {e.id} \cup Worst(s2, s.offered) ELSE @,
            !.offered = {e.obs[k].id : k \in DOMAIN e.obs}]
EndFails(s, run) == Clause("events recorded", Len(run.ev) > 0)
INSTANCE TraceCheck
=============================================================================
