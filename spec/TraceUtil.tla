------------------------------ MODULE TraceUtil ------------------------------
(* The recorded runs.  Defined in a module that trace modules extend, so that
   TLC evaluates it once. *)
EXTENDS Util, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
=============================================================================
