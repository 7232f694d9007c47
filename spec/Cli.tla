--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line (C26).  args: the options as given,                      *)
(*   file "csv" | "CSV" | "arff" | "ARFF" | "missing" | "txt"                *)
(*   target "" (last column) | name;  kind: the kind of the target column    *)
(*   mode, metric, minutes, evalMinutes, jobs: "" or the given text          *)
(*   long, verbose, dry: flags;  outdir, out, py: "" or a path               *)
(***************************************************************************)
EXTENDS Files
Modes == {"classification", "regression"}
Given(v, default) == IF v = "" THEN default ELSE v
Numbers == [n \in {ToString(k) : k \in 0..600} |-> CHOOSE k \in 0..600 : ToString(k) = n]
Number(t) == Numbers[t]
Format(args) == IF args.file \in {"csv", "CSV"} THEN "csv" ELSE "arff"
Inferred(args, target) == IF LoadedType(target, Format(args)) = "category" THEN "classification" ELSE "regression"
Mode(args, target) == Given(args.mode, Inferred(args, target))
(* target is the column of the file that is to be predicted *)
Invalid(args, cols) ==
  \/ args.file \in {"missing", "txt"}
  \/ ~Known(cols, args.target)
  \/ (args.mode # "" /\ args.mode \notin Modes)
Config(args, cols) ==
  LET t == cols[TargetIndex(cols, args.target)]  m == Mode(args, t) IN
  [mode |-> m,
   metric |-> Given(args.metric, IF m = "classification" THEN "neg_log_loss" ELSE "neg_mean_squared_error"),
   seconds |-> 60 * Number(Given(args.minutes, "60")),
   evalSeconds |-> 60 * Number(Given(args.evalMinutes, "5")),
   jobs |-> Number(Given(args.jobs, "1")),
   short |-> ~args.long,
   verbose |-> args.verbose,
   outdir |-> args.outdir,
   store |-> IF args.dry THEN "nothing" ELSE "logs"]
(* what a run leaves behind *)
Leaves(args, cols) ==
  IF Invalid(args, cols) \/ args.dry THEN {}
  ELSE {Given(args.out, "gama_model.pkl"), Given(args.outdir, "a new directory")} \cup (IF args.py = "" THEN {} ELSE {args.py})
===============================================================================
