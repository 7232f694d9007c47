------------------------------- MODULE MC_Export -------------------------------
(* Fits and exports in any order; the file may exist before, with other text. *)
EXTENDS Export
CONSTANTS MaxLen
VARIABLES model, version, file, h
vars == <<model, version, file, h>>
Init == model = None /\ version = 0 /\ file \in {"absent", "other"} /\ h = <<[op |-> "begin", file |-> file]>>
More == Len(h) <= MaxLen
Fit == /\ More /\ version < 2 /\ \E k \in {"single", "ensemble"} :
            /\ model' = [None EXCEPT !.kind = k] /\ version' = version + 1
            /\ h' = Append(h, [op |-> "fit", kind |-> k]) /\ UNCHANGED file
Script == "script" \o ToString(version)
Export1 == /\ More /\ \E f \in BOOLEAN, x \in BOOLEAN :
                /\ h' = Append(h, [op |-> "export", file |-> f, exclusive |-> x])
                /\ file' = FileAfter(model, file, f, x, Script) /\ UNCHANGED <<model, version>>
Next == Fit \/ Export1
(* a file's text is lost only to a script, and only when overwriting was allowed *)
NotLost == [][(file # "absent" /\ file' # file) => (file' = "script" \o ToString(version) /\ ~h'[Len(h')].exclusive)]_vars
NeverUnfitted == version = 0 => file \in {"absent", "other"}
Emit == (Len(h') = MaxLen + 1) => EmitPath(h')
=============================================================================
