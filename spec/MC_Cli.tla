-------------------------------- MODULE MC_Cli --------------------------------
(* Command lines with at most Deviations options away from their default. *)
EXTENDS Cli
CONSTANTS Deviations
VARIABLES args, next, changed
vars == <<args, next, changed>>
Default == [file |-> "csv", target |-> "", kind |-> "text", sep |-> ",", mode |-> "", metric |-> "", minutes |-> "", evalMinutes |-> "", jobs |-> "",
            long |-> FALSE, verbose |-> FALSE, dry |-> FALSE, outdir |-> "", out |-> "", py |-> "", call |-> "list"]
Order == <<"file", "target", "kind", "sep", "mode", "metric", "minutes", "evalMinutes", "jobs", "long", "verbose", "dry", "outdir", "out", "py", "call">>
Others(o) ==
  CASE o = "file" -> {"CSV", "arff", "ARFF", "missing", "txt"}
    [] o = "target" -> {"first", "middle", "unknown"}
    [] o = "kind" -> {"few", "many", "real"}
    [] o = "sep" -> {";", "|"}
    [] o = "mode" -> {"classification", "regression", "clustering"}
    [] o = "metric" -> {"other"}
    [] o = "minutes" -> {"1", "7", "600"}
    [] o = "evalMinutes" -> {"1", "9"}
    [] o = "jobs" -> {"2", "3"}
    [] o \in {"long", "verbose", "dry"} -> {TRUE}
    [] o = "outdir" -> {"logs here", "nested/dir"}
    [] o = "out" -> {"m.pkl"}
    [] o = "py" -> {"code.py"}
    [] o = "call" -> {"string", "argv"}
Init == args = Default /\ next = 1 /\ changed = 0
Keep == next <= Len(Order) /\ next' = next + 1 /\ UNCHANGED <<args, changed>>
Change == /\ next <= Len(Order) /\ changed < Deviations
          /\ \E v \in Others(Order[next]) : args' = [args EXCEPT ![Order[next]] = v]
          /\ next' = next + 1 /\ changed' = changed + 1
Next == Keep \/ Change
(* a table with the named columns; the target is of the chosen kind *)
Col(name, k) == [name |-> name, kind |-> IF k \in {"few", "many"} THEN "whole" ELSE k,
                 cells |-> IF k = "many" THEN <<"1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11">> ELSE <<"1", "2", "3">>]
KindOf(n) == IF (n = 1 /\ args.target = "first") \/ (n = 2 /\ args.target = "middle") \/ (n = 3 /\ args.target \in {"", "unknown"}) THEN args.kind ELSE "real"
Cols == <<Col("first", KindOf(1)), Col("middle", KindOf(2)), Col("last", KindOf(3))>>
Complete == next > Len(Order)
Sane == Complete /\ ~Invalid(args, Cols) =>
          LET c == Config(args, Cols) IN /\ c.mode \in Modes /\ c.seconds >= 60 /\ c.evalSeconds >= 60 /\ c.jobs >= 1
                                         /\ (args.mode = "" => (c.mode = "classification") = (args.kind = "text" \/ (args.kind = "few" /\ Format(args) = "csv")))
NoTrace == Complete /\ (args.dry \/ args.file = "missing") => Leaves(args, Cols) = {}
Emit == (next' > Len(Order)) => EmitPath(<<args'>>)
=============================================================================
