------------------------------ MODULE ExportTrace ------------------------------
(* begin: file; fit: the selected model; export: what was asked, the outcome, the
   file before and after, and what running the script defines. *)
EXTENDS Export, TraceUtil
VARIABLES r, i, st
Start(run) == [model |-> None]
Checked(s, b, from) ==
  Clause(from \o ": the script runs and defines the model", b.error = "")
  \cup (IF b.error # "" THEN {} ELSE
     Clause(from \o ": one pipeline, or an ensemble with the voting of the metric", b.kind = s.model.kind /\ b.voting = s.model.voting)
     \cup Clause(from \o ": the same steps with the same hyperparameters and weights", SameModel(b, s.model))
     \cup Clause(from \o ": the model is not fitted", ~b.fitted)
     \cup Clause(from \o ": the same preprocessing", b.z = s.model.z)
     \cup Clause(from \o ": the same predictions", b.checked => b.predictions = s.model.predictions))
Fails(s, e) ==
  CASE e.op = "begin" -> {}
    [] e.op = "fit" -> Clause("the model of the scenario can be fitted", e.model.kind # "none")
    [] e.op = "export" ->
         LET fails == ExportFails(s.model, e.file /\ e.before # "absent", e.exclusive) IN
         Clause("an error exactly without model or for a protected file", (e.raised # "") = fails)
         \cup Clause("no other file changes", ~e.othersChanged)
         \cup Clause("exporting leaves the predictions of the object as they were", e.unchanged)
         \cup (IF fails \/ e.raised # "" \/ ~e.file
               THEN Clause("the file is as it was", e.after = e.before)
               ELSE Clause("the file is written", e.after # "absent") \cup Checked(s, e.fromFile, "file"))
         \cup (IF fails \/ e.raised # "" THEN {} ELSE Checked(s, e.fromText, "text"))
    [] OTHER -> {"unknown event"}
Apply(s, e) == IF e.op = "fit" THEN [s EXCEPT !.model = e.model] ELSE s
EndFails(s, run) == {}
INSTANCE TraceCheck
===============================================================================
