----------------------------- MODULE OutputTrace -----------------------------
(* Recorded life of real output directories.  Every event has the listing of the
   directory afterwards (logs, cached: number of cached models, cache: the cache
   directory exists, other) and what changed outside of it. *)
EXTENDS Output, TraceUtil
VARIABLES r, i, st
Start(run) == [store |-> "", d |-> Gone, logged |-> FALSE, mine |-> {}]
Listing(e) == [exists |-> e.exists, logs |-> e.logs # <<>>, cache |-> e.cache]
Outside(e) == Clause("nothing outside the output directory is created, changed or removed", e.outside = <<>>)
Mine(s, e) == Clause("files of the user in the output directory are not touched", s.mine \subseteq RangeOf(e.mine))
Fails(s, e) ==
  CASE e.op = "construct" ->
         Outside(e)
         \cup (IF Rejects(e.pre) THEN
                 Clause("an existing non-empty output directory is rejected", e.raised # "")
                 \cup Clause("and left untouched", e.untouched)
               ELSE IF e.bad # "" THEN
                 Clause("settings for times and number of jobs are rejected", e.raised = "ValueError")
                 \cup Clause("rejected settings leave no directory behind", e.pre = "absent" => ~e.exists)
               ELSE Clause("constructing succeeds", e.raised = "")
                    \cup Clause("the output directory is created", e.exists)
                    \cup Clause("the output directory has no cached models yet", e.cached = 0))
    [] e.op = "fit" ->
         Outside(e) \cup Mine(s, e)
         \cup Clause("fit succeeds", e.raised = "" \/ (s.mine # {} /\ s.store = "nothing" /\ e.raised = "OSError"))
         \cup Clause("after fit nothing is kept but what was asked for",
                LET l == Listing(e) w == AfterFit(s.d, s.store) IN
                /\ (l.exists => w.exists \/ s.mine # {}) /\ (l.logs => w.logs) /\ (l.cache => w.cache) /\ e.other = <<>>)
         \cup Clause("all that was asked for is kept",
                /\ (s.store # "nothing" => e.exists)
                /\ (KeepsCache(s.store) => e.cached = e.models)
                /\ (KeepsLogs(s.store) => e.evallog = e.evaluations)
                /\ ((KeepsLogs(s.store) /\ ~s.logged) => e.gamalog))
    [] e.op = "cleanup" ->
         Outside(e) \cup Mine(s, e)
         \cup Clause("cleaning up succeeds", e.raised = "" \/ (s.mine # {} /\ e.which = "all" /\ e.raised = "OSError"))
         \cup Clause("cleaning up removes exactly the kind of files it names", Listing(e) = CleanUp2(s.d, e.which, s.mine))
    [] e.op = "user" -> {}
    [] OTHER -> {"the object works"}
Apply(s, e) ==
  CASE e.op = "construct" -> [s EXCEPT !.store = e.store, !.d = Listing(e)]
    [] e.op = "user" -> [s EXCEPT !.mine = RangeOf(e.mine), !.d = Listing(e)]
    [] OTHER -> [s EXCEPT !.d = Listing(e), !.logged = s.logged \/ (e.op = "cleanup" /\ e.which # "evaluations")]
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
