------------------------------- MODULE CliTrace -------------------------------
(* cli: one invocation of the command line on a file. *)
EXTENDS Cli, TraceUtil
VARIABLES r, i, st
Start(run) == [n |-> 0]
Fails(s, e) ==
  IF Invalid(e.args, e.cols)
  THEN Clause("missing files, other file types, modes and targets are errors", e.raised # "")
       \cup Clause("an error fits nothing and leaves no files", e.fits = 0 /\ e.made = <<>>)
  ELSE
    Clause("the invocation succeeds", e.raised = "")
    \cup (IF e.raised # "" THEN {} ELSE
      Clause("one AutoML object is configured", Len(e.configs) = 1)
      \cup (IF Len(e.configs) # 1 THEN {} ELSE
        LET w == Config(e.args, e.cols)  c == e.configs[1] IN
        UNION {Clause("the configuration: " \o f, c[f] = w[f]) : f \in DOMAIN w})
      \cup Clause("a dry run fits nothing, otherwise one fit", e.fits = IF e.args.dry THEN 0 ELSE 1)
      \cup Clause("exactly the requested files are left", RangeOf(e.made) = Leaves(e.args, e.cols))
      \cup (IF e.args.dry THEN {} ELSE
        LET w == Split(e.cols, e.args.target, Format(e.args)) IN
        Clause("target and features are those of the file", e.target = w.y.name /\ e.features = [k \in DOMAIN w.x |-> w.x[k].name] /\ e.rows = Len(w.y.cells))
        \cup Clause("the pickled model is the fitted one", e.pickled)
        \cup Clause("the exported code defines a pipeline", e.args.py # "" => e.code)
        \cup Clause("only logs are kept", e.logs)))
Apply(s, e) == s
EndFails(s, run) == {}
INSTANCE TraceCheck
===============================================================================
