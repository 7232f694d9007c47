------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* The output directory (C14).  Its contents by kind: logs, cache (the        *)
(* directory with cached models), other.                                      *)
(***************************************************************************)
EXTENDS Util
Stores == {"nothing", "logs", "models", "all"}
KeepsLogs(store) == store \in {"logs", "all"}
KeepsCache(store) == store \in {"models", "all"}
(* path before construction -> rejected? *)
Rejects(pre) == pre \in {"nonempty", "hidden", "subdir", "file", "linked"}
(* state after cleaning up *)
Gone == [exists |-> FALSE, logs |-> FALSE, cache |-> FALSE]
Clean(d, which) ==
  IF ~d.exists THEN d
  ELSE CASE which = "logs" -> [d EXCEPT !.logs = FALSE]
         [] which = "evaluations" -> [d EXCEPT !.cache = FALSE]
         [] which = "all" -> Gone
         [] OTHER -> d
(* with files of the user in it, the directory itself stays (and the call may say so) *)
CleanUp2(d, which, mine) == IF mine = {} THEN Clean(d, which) ELSE [Clean(d, which) EXCEPT !.exists = d.exists]
AfterFit(d, store) ==
  IF store = "nothing" THEN Gone ELSE [exists |-> TRUE, logs |-> KeepsLogs(store), cache |-> KeepsCache(store)]
=============================================================================
