---------------------------- MODULE SettingsTrace ----------------------------
(* Construction and fits with the settings run.c.  construct: raised.  fit: what was
   observed.  offer: the operators of individuals created while fitting on data d. *)
EXTENDS Settings, TraceUtil
VARIABLES r, i, st
Start(run) == [c |-> run.c]
Set(q) == RangeOf(q)
SearchFails(c, e) ==
  CASE Method(c) = "ea" ->
         Clause("the population has at most the population size", Len(e.output) <= PopSize(c))
         \cup Clause("the population is filled up to the population size", Len(e.output) = Min2(PopSize(c), Cardinality(Set(e.done))))
         \cup Clause("the maximum number of evaluations is kept", c.maxn > 0 => Len(e.done) = Min2(c.maxn, e.allowed))
         \cup Clause("without a maximum the search goes on", c.maxn = 0 => Len(e.done) = e.allowed)
         \cup Clause("every evaluation uses all data", \A x \in Set(e.sizes) : x = e.fold)
    [] Method(c) = "random" ->
         Clause("random search goes on until it is stopped", Len(e.done) = e.allowed /\ Len(e.output) = e.allowed)
         \cup Clause("every evaluation uses all data", \A x \in Set(e.sizes) : x = e.fold)
    [] Method(c) = "asha" ->
         Clause("each evaluation uses the resource of a rung", Set(e.sizes) \subseteq Sizes(c, e.fold))
         \cup Clause("evaluations start on the lowest rung", e.sizes[1] = Size(c, Skip(c), e.fold))
         \cup Clause("with enough evaluations several rungs are used",
                (Cardinality(Sizes(c, e.fold)) > 1 /\ Len(e.done) >= 8 + 2 * Eta(c)) => Cardinality(Set(e.sizes)) > 1)
    [] OTHER -> {}
Fails(s, e) ==
  CASE e.op = "construct" ->
         Clause("unknown or impossible settings are rejected, others are not", (e.raised # "") = Rejected(s.c))
         \cup Clause("rejected with a ValueError", e.raised \in {"", "ValueError"})
    [] e.op = "fit" ->
         Clause("fit does not fail: " \o e.raised, e.raised = "")
         \cup (IF e.raised # "" THEN {} ELSE
         Clause("the configured number of worker processes", e.workers = Workers(s.c))
         \cup Clause("the configured or default search method", e.method = Method(s.c))
         \cup Clause("the configured, preset or default post-processing", e.post = Post(s.c))
         \cup Clause("the pipeline's length is an objective unless turned off", Set(e.arity) \subseteq {Arity(s.c)})
         \cup Clause("starting individuals keep to the maximum length", \A x \in Set(e.startlens) : x >= 1 /\ x <= MaxStart(s.c))
         \cup Clause("starting individuals have all allowed lengths", MaxStart(s.c) <= 3 => Set(e.startlens) = 1..(IF s.c.preproc THEN MaxStart(s.c) ELSE 1))
         \cup Clause("all individuals keep to the maximum length", MaxSteps(s.c) > 0 => \A x \in Set(e.lens) : x <= MaxSteps(s.c))
         \cup Clause("models are stored only for ensembles", Post(s.c) # "ensemble" => e.stored = 0)
         \cup Clause("at most the maximum number of models is stored", (Post(s.c) = "ensemble" /\ s.c.models > 0) => e.stored <= s.c.models)
         \cup SearchFails(s.c, e))
    [] e.op = "offer" ->
         Clause("fit does not fail: " \o e.raised, e.raised = "")
         \cup (IF e.raised # "" THEN {} ELSE
         Clause("predictors offered depend on the size of the data of this fit", Set(e.p) = Predictors(Set(s.c.p), Post(s.c) = "ensemble", e.d))
         \cup Clause("preprocessing offered depends on the number of features of this fit", Set(e.s) = Steps(Set(s.c.s), Post(s.c) = "ensemble", e.d)))
    [] OTHER -> {"outcome: " \o e.op}
Apply(s, e) == s
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
