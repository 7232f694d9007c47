------------------------------ MODULE Isolation ------------------------------
(***************************************************************************)
(* Several AutoML objects in one process (C23).  An object's settings are    *)
(* a record; a fit of object o on data d must use exactly o's settings and   *)
(* d.  Memory is in megabytes: the main process uses Main, each worker Each.  *)
(***************************************************************************)
EXTENDS Util
Main == 10
Each == 40
(* with a limit, a worker is stopped exactly when the total exceeds it *)
Stopped(s) == s.memory > 0 /\ Main + Each * s.jobs > s.memory
(* what a fit of an object with settings s on data d makes use of *)
Uses(s, d) == [jobs |-> s.jobs, memory |-> s.memory, evaltime |-> s.evaltime, total |-> s.total,
               metrics |-> s.metrics, dir |-> s.dir, salt |-> s.salt, data |-> d]
=============================================================================
