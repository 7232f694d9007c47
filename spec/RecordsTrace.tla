---------------------------- MODULE RecordsTrace ----------------------------
(* text: an individual, its text, and the individual its text parses to;
   bad: a text that must be rejected; line: an evaluation logged; file: the records
   read back from the log; report: what a report lists; ended: a report on the finished run. *)
EXTENDS Records, TraceUtil
VARIABLES r, i, st
Start(run) == [texts |-> {}, log |-> NewLog]
Fails(s, e) ==
  CASE e.op = "text" ->
         Clause("the text form parses", e.raised = "")
         \cup Clause("the text parses back to the same steps and values", e.raised = "" => e.back = e.ind)
         \cup Clause("the parsed individual has the same text", e.raised = "" => e.text2 = e.text)
         \cup Clause("distinct pipelines have distinct texts and equal ones the same",
                \A t \in s.texts : (t[1] = e.ind) = (t[2] = e.text))
    [] e.op = "bad" -> Clause("incomplete or unknown text is rejected", e.raised # "")
    [] e.op = "line" -> {}
    [] e.op = "file" ->
         Clause("the log can be read", e.raised = "")
         \cup Clause("the log names its fields", e.raised = "" => e.header = e.fields)
         \cup Clause("one record per evaluation, in order, with every field", e.raised = "" => e.rows = s.log.lines)
    [] e.op = "report" ->
         Clause("a report can be made and updated while the log grows", e.raised = "")
         \cup Clause("the report lists each evaluation exactly once, in order",
                e.raised = "" => e.ids = [k \in 1..Len(s.log.lines) |-> s.log.lines[k][1]])
         \cup Clause("the report has each evaluation's scores", e.raised = "" => e.scores = e.expected)
         \cup Clause("the report has each evaluation's pipeline", e.raised = "" => e.pipes = e.wantpipes)
         \cup (IF e.raised # "" THEN {} ELSE
           Clause("the report numbers the evaluations", e.numbers = [k \in 1..Len(s.log.lines) |-> k - 1])
           \cup Clause("the report has the best score so far of each metric", e.bests = BestSoFar(e.ranks))
           \cup Clause("the report has each evaluation's duration", e.durations = [k \in 1..Len(e.times) |-> e.times[k].dur])
           \cup Clause("the report has each evaluation's end relative to the first start", e.ends = Ends(e.times))
           \cup Clause("the successful evaluations are those with finite scores", e.fine = FineOnes(s.log.lines, e.times)))
    [] e.op = "ended" ->
         Clause("a report on a finished run can be made", e.raised = "")
         \cup (IF e.raised # "" THEN {} ELSE
           Clause("the phases of the run are listed in order with their algorithms",
             Len(e.phases) = 3 /\ <<e.phases[2][2], e.phases[3][2]>> = e.algorithms /\ Cardinality(RangeOf(e.phases)) = 3)
           \cup Clause("phases have their start and duration", e.lasting)
           \cup Clause("a finished run is complete and stays as it is", ~e.incomplete /\ ~e.again /\ e.rows = Len(s.log.lines)))
    [] OTHER -> {"unknown event"}
Apply(s, e) == CASE e.op = "text" -> [s EXCEPT !.texts = @ \cup {<<e.ind, e.text>>}]
                 [] e.op = "line" -> [s EXCEPT !.log = LogOne(@, e.fields)]
                 [] OTHER -> s
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
