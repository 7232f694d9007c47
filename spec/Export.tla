-------------------------------- MODULE Export --------------------------------
(***************************************************************************)
(* Exporting a model as code (C21).  A model is                              *)
(*   [kind |-> "single" | "ensemble", voting, models]                        *)
(* with models a sequence of [steps, weight]; a step is [p, h]: the class    *)
(* and its hyperparameter values.  A file is "absent", or names what it      *)
(* holds (some other text, or the script of a model).                        *)
(***************************************************************************)
EXTENDS Util
None == [kind |-> "none", voting |-> "", models |-> <<>>, z |-> ""]
Voting(kind, metric, probabilities) ==
  IF kind # "ensemble" THEN "" ELSE
  CASE metric = "regression" -> "regressor"
    [] probabilities -> "soft"
    [] OTHER -> "hard"
(* what export does: an error, or a script and possibly a written file *)
ExportFails(model, existed, exclusive) == model.kind = "none" \/ (exclusive /\ existed)
FileAfter(model, file, toFile, exclusive, script) ==
  IF ExportFails(model, file # "absent" /\ toFile, exclusive) \/ ~toFile THEN file ELSE script
(* two models are the same: order of an ensemble's members does not matter *)
SameMembers(a, b) == /\ Len(a) = Len(b)
                     /\ \A x \in RangeOf(a) \cup RangeOf(b) : Count(a, x) = Count(b, x)
SameModel(a, b) == /\ a.kind = b.kind /\ a.voting = b.voting
                   /\ IF a.kind = "ensemble" THEN SameMembers(a.models, b.models) ELSE a.models = b.models
===============================================================================
