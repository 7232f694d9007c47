---------------------------- MODULE WorkersTrace ----------------------------
(* Recorded life of the worker processes of one pool.  run: n, limit.  Tables
   are sequences of [pid, mem] of the live workers; st.c is how many the pool is
   entitled to run now. *)
EXTENDS Workers, TraceUtil
VARIABLES r, i, st
Start(run) == [n |-> run.n, limit |-> run.limit, c |-> run.n, pids |-> {}, stops |-> 0, over |-> FALSE]
Mem(table) == [p \in {t.pid : t \in RangeOf(table)} |-> (CHOOSE t \in RangeOf(table) : t.pid = p).mem]
Fails(s, e) ==
  CASE e.op = "entered" -> Clause("the configured number of workers runs on entering", Cardinality(RangeOf(e.alive)) = s.n)
    (* just before a wait; died: workers the environment killed *)
    [] e.op = "before" -> {}
    [] e.op = "stop" ->
         Clause("a worker is stopped only when total memory exceeds the limit", Exceeds(s.limit, e.main, Mem(e.table)))
         \cup Clause("the worker using the most memory is stopped",
                Exceeds(s.limit, e.main, Mem(e.table)) => MayStop(s.limit, e.main, Mem(e.table), e.pid))
    [] e.op = "after" ->
         Clause("at least one worker remains", Cardinality(RangeOf(e.alive)) >= 1)
         \cup Clause("dead workers are replaced, and only stopped ones are not",
                Cardinality(RangeOf(e.alive)) \in (s.c - s.stops)..s.c)
         \cup Clause("a worker is stopped when total memory exceeds the limit", s.over => s.stops > 0)
    [] e.op = "returned" -> Clause("waiting returns the submitted call's result", e.ok)
    [] e.op = "entry" -> Clause("a pool can be entered only once", e.raised = "RuntimeError")
    [] e.op = "left" ->
         Clause("the exception of the context propagates", e.raised = e.expected)
         \cup Clause("no worker is alive or a zombie after the context", e.remaining = <<>>)
         \cup Clause("leaving takes no longer than the configured wait", e.slow = FALSE)
    [] OTHER -> {"the pool answers"}
Apply(s, e) ==
  CASE e.op = "before" -> [s EXCEPT !.stops = 0, !.over = Exceeds(s.limit, e.main, Mem(e.table))]
    [] e.op = "stop" -> [s EXCEPT !.stops = @ + 1]
    [] e.op = "after" -> [s EXCEPT !.c = Cardinality(RangeOf(e.alive)), !.stops = 0, !.over = FALSE]
    [] OTHER -> s
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
