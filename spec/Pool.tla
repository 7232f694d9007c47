-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* The evaluation pool (C01).  jobs: submitted calls [kind, tok]; open: set  *)
(* of handles (numbers of the submit) not yet returned by waiting.          *)
(***************************************************************************)
EXTENDS Util
Raises(kind) == kind \in {"raise_value", "raise_memory", "raise_key", "raise_custom", "raise_overflow", "raise_type",
                          "raise_os", "raise_stop", "raise_assert", "raise_unicode", "raise_struct", "raise_attr", "raise_bare", "raise_empty"}
(* results which cannot carry a token: falsy values and constants *)
Plain(kind) == kind \in {"none", "zero", "empty_str", "empty_tuple", "empty_list", "false", "nothing_dict",
                        "one_none", "true", "type_value", "raise_bare", "raise_empty"}
Outcome(j, shared) == [how |-> IF Raises(j.kind) THEN "exception" ELSE "value", kind |-> j.kind,
                       tok |-> IF Plain(j.kind) THEN 0 ELSE j.tok,
                       shared |-> IF Plain(j.kind) THEN 0 ELSE shared]
=============================================================================
