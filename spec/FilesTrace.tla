------------------------------ MODULE FilesTrace ------------------------------
EXTENDS Files, TraceUtil
VARIABLES r, i, st
Start(run) == [q |-> run.idx]
Fails(s, e) ==
  CASE e.op = "load" ->
         Clause("known targets are split off, unknown ones rejected", (e.raised = "") = Known(e.cols, e.target))
         \cup (IF e.raised # "" \/ ~Known(e.cols, e.target) THEN {} ELSE
           LET w == Split(e.cols, e.target, e.format) IN
           Clause("exactly the target column is split off", e.y.name = w.y.name)
           \cup Clause("features keep their names and order", [k \in DOMAIN e.x |-> e.x[k].name] = [k \in DOMAIN w.x |-> w.x[k].name])
           \cup Clause("every row with every value, in order", /\ e.y.cells = w.y.cells /\ Len(e.x) = Len(w.x)
                                                                /\ \A k \in DOMAIN w.x : e.x[k].cells = w.x[k].cells)
           \cup Clause("categorical and numeric columns", /\ e.y.type = w.y.type
                                                           /\ Len(e.x) = Len(w.x) => \A k \in DOMAIN w.x : e.x[k].type = w.x[k].type))
    [] e.op = "whole" ->
         Clause("the file loads", e.raised = "")
         \cup Clause("the table is that of the file", e.raised = "" => e.x = [k \in DOMAIN e.cols |-> Loaded(e.cols[k], e.format)])
    [] e.op = "meta" ->
         Clause("names and types can be read", e.raised = "")
         \cup Clause("column names match the file", e.raised = "" => e.names = [k \in DOMAIN e.cols |-> e.cols[k].name])
         \cup Clause("declared types match the file", e.raised = "" => e.types = e.declared)
    [] e.op = "reject" -> Clause("other file types are rejected", e.raised # "")
    [] OTHER -> {"unknown event"}
Apply(s, e) == s
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
