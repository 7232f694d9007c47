--------------------------- MODULE IsolationTrace ---------------------------
(* Histories of several real AutoML objects in one process.  run.objs: settings per object;
   a fit event has what the pool, the evaluations and the files showed during that fit. *)
EXTENDS Isolation, TraceUtil
VARIABLES r, i, st
Start(run) == [objs |-> run.objs, fitted |-> [o \in DOMAIN run.objs |-> 0]]
Constant(e) ==
  Clause("the operation does not raise", e.raised = "")
  \cup Clause("the default search spaces are unchanged", e.spaces)
  \cup Clause("the caller's data is unchanged", e.data)
  \cup Clause("the caller's search space is unchanged", e.caller)
  \cup Clause("no other object's output is changed", RangeOf(e.touched) \subseteq {e.o})
  \cup Clause("the other objects' recorded evaluations are unchanged", RangeOf(e.changed) \subseteq {e.o})
Fails(s, e) ==
  LET c == s.objs[e.o] IN
  IF e.op = "one" THEN Clause("fitting works, with the object's workers, however often", e.raised = "" /\ e.workers = e.jobs) ELSE
  Constant(e) \cup
  CASE e.op \in {"construct", "use"} -> {}
    [] e.op = "offer" -> Clause("an object offers exactly its own search space", (e.fit /\ e.raised = "") => e.got = e.want)
    [] e.op = "predict" ->
         Clause("predictions are those of the object's own model", e.raised # "" \/ (e.tag = s.fitted[e.o] /\ e.rows = e.asked))
    [] e.op = "fit" ->
         IF e.raised # "" THEN {} ELSE
         Clause("the pool has the object's number of workers", e.workers = c.jobs)
         \cup Clause("the object's memory limit applies", e.stopped = Stopped(c))
         \cup Clause("evaluations get the object's evaluation time", \A t \in RangeOf(e.evaltimes) : t = c.evaltime)
         \cup Clause("the search gets the object's time", c.plain \/ (e.limit <= c.search /\ e.limit >= c.search - 30))
         \cup Clause("only the given data is used", RangeOf(e.tags) = {e.d} /\ e.labels)
         \cup Clause("evaluations are scored by the object's metrics", RangeOf(e.scores) = {c.metrics} /\ RangeOf(e.lengths) = {c.regularize})
         \cup Clause("pipelines are of the object's search space", RangeOf(e.salts) \subseteq RangeOf(c.salts) /\ RangeOf(e.prims) \subseteq RangeOf(c.prims))
         \cup Clause("the whole search space of the object is available", c.plain \/ RangeOf(e.prims) \cup RangeOf(e.dropped) = RangeOf(c.prims))
         \cup Clause("memory use is recorded in the object's directory", e.memlog)
         \cup Clause("callbacks of the object see its evaluations and no others do", e.n > 0 /\ RangeOf(e.called) = {e.o})
         \cup Clause("the library holds only the object's evaluations", e.library = e.n /\ e.own)
         \cup Clause("the log holds only the object's evaluations", e.logown)
         \cup Clause("the model is one of the object's", RangeOf(e.model) \subseteq RangeOf(c.salts))
    [] OTHER -> {"the operation runs"}
Apply(s, e) == IF e.op = "fit" /\ e.raised = "" THEN [s EXCEPT !.fitted[e.o] = e.d] ELSE s
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
