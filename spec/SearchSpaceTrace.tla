-------------------------- MODULE SearchSpaceTrace --------------------------
(* parse: a configuration and what the parsed search space offers; merge: two
   configurations, the merged one; kinds: operators seen in an AutoML object. *)
EXTENDS SearchSpace, TraceUtil
VARIABLES r, i, st
Start(run) == [n |-> 0]
Observed(e) == {[name |-> o.name, kind |-> o.kind, slots |-> {<<s.src, s.n, RangeOf(s.v)>> : s \in RangeOf(o.slots)}] : o \in RangeOf(e.offers)}
AsKind(k) == IF k \in {"labels-only", "probabilities", "regressor"} THEN "prediction" ELSE k
Expected(c) == {[o EXCEPT !.kind = AsKind(@)] : o \in Offers(c)}
Fails(s, e) ==
  CASE e.op = "parse" ->
         Clause("a valid configuration parses, anything else is rejected", (e.raised = "") = e.valid)
         \cup (IF e.raised # "" \/ ~e.valid THEN {} ELSE
           Clause("one operator per configured class", Len(e.offers) = Cardinality(DOMAIN Dec(e.config).ops))
           \cup Clause("operators of the kind their type implies with exactly the configured choices", Observed(e) = Expected(Dec(e.config)))
           \cup Clause("every choice is offered once", \A o \in RangeOf(e.offers) : \A t \in RangeOf(o.slots) : Len(t.v) = Cardinality(RangeOf(t.v)))
           \cup Clause("parsing leaves the configuration unmodified", e.same))
    [] e.op = "merge" ->
         Clause("merging works", e.raised = "")
         \cup (IF e.raised # "" THEN {} ELSE
           Clause("merging is the union", Dec(e.merged) = Merge(Dec(e.a), Dec(e.b)))
           \cup Clause("merging leaves both unmodified", e.same))
    [] e.op = "kinds" ->
         Clause("the object can be used", e.raised = "")
         \cup (IF e.raised # "" THEN {} ELSE
           Clause("classifiers without probabilities are excluded exactly if needed, nothing else is",
             RangeOf(e.seen) = {o.name : o \in {o \in Offers(Restrict(Dec(e.config), e.needed)) : AsKind(o.kind) = "prediction"}})
           \cup Clause("the caller's configuration is unmodified", e.same))
    [] OTHER -> {"unknown event"}
Apply(s, e) == s
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
