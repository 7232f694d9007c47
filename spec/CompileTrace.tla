---------------------------- MODULE CompileTrace ----------------------------
(* newfit: another fit starts, its preprocessing may differ; build: a pipeline was built from an individual (describe: and then dropped); fit: the q-th pipeline was fitted
   on data d; evaluated, model: pipelines found in an evaluation's estimators and in
   the model.  A step is [p, h, rest], rest is the number of parameters that are neither
   the individual's nor the operator's default.  states: what each pipeline answers on
   probe rows ("" if it is not fitted). *)
EXTENDS Compile, TraceUtil
VARIABLES r, i, st
Start(run) == [pre |-> <<>>, known |-> FALSE, pipes |-> <<>>, answers |-> {}]
Plain(s) == [k \in DOMAIN s |-> [p |-> s[k].p, h |-> s[k].h]]
Faithful(s, e) ==
  IF Len(e.pipe) < Len(e.ind) THEN {"the pipeline has every step of the individual"} ELSE
  Clause("the individual's steps, from the data to the predictor, with its values", Plain(OwnPart(e.pipe, e.ind)) = Plain(Rev(e.ind)))
  \cup Clause("all other parameters have their defaults", \A x \in RangeOf(OwnPart(e.pipe, e.ind)) : x.rest = 0)
  \cup Clause("the same preprocessing in every pipeline", s.known => Plain(FixedPart(e.pipe, e.ind)) = s.pre)
  \cup Clause("the individual is unchanged", e.after = e.ind)
Fails(s, e) ==
  CASE e.op = "build" ->
         Clause("every individual's pipeline can be built", e.raised = "")
         \cup (IF e.raised # "" THEN {} ELSE
           Faithful(s, e)
           \cup Clause("building fits nothing and changes no other pipeline", e.states = Append([k \in DOMAIN s.pipes |-> s.pipes[k].state], "")))
    [] e.op = "describe" ->
         Clause("every individual's pipeline can be built", e.raised = "")
         \cup (IF e.raised # "" THEN {} ELSE Faithful(s, e))
    [] e.op = "fit" ->
         Clause("fitting one pipeline changes no other", \A k \in DOMAIN s.pipes : k # e.q => e.states[k] = s.pipes[k].state)
         \cup Clause("a fitted pipeline answers", e.states[e.q] # "")
         \cup Clause("the same individual fitted on the same data answers the same",
                     \A a \in s.answers : (a.n = s.pipes[e.q].n /\ a.d = e.d) => a.state = e.states[e.q])
    [] e.op \in {"evaluated", "model"} -> Faithful(s, e)
    [] e.op = "newfit" -> {}
    [] OTHER -> {"unknown event"}
Apply(s, e) ==
  CASE e.op = "build" -> [s EXCEPT !.pipes = Append(@, [n |-> e.n, state |-> ""]), !.known = TRUE, !.pre = Plain(FixedPart(e.pipe, e.ind))]
    [] e.op = "fit" -> [s EXCEPT !.pipes[e.q].state = e.states[e.q],
                                 !.answers = @ \cup {[n |-> s.pipes[e.q].n, d |-> e.d, state |-> e.states[e.q]]}]
    [] e.op = "newfit" -> [s EXCEPT !.known = FALSE]
    [] OTHER -> [s EXCEPT !.known = TRUE, !.pre = Plain(FixedPart(e.pipe, e.ind))]
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
