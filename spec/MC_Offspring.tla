---------------------------- MODULE MC_Offspring ----------------------------
(* Histories of evaluations (succeeded or failed) and offspring requests whose
   attempts yield any pipelines; the attempts are made one at a time. *)
EXTENDS Offspring
CONSTANTS Pipes, Retry, MaxLen
VARIABLES done, req, h
vars == <<done, req, h>>
None == [atts |-> <<>>, kind |-> "none"]
Init == done = {} /\ req = None /\ h = <<>>
Evaluate == /\ req = None /\ Len(h) < MaxLen
            /\ \E p \in Pipes, ok \in BOOLEAN :
                 done' = done \cup {p} /\ h' = Append(h, [op |-> "eval", p |-> p, ok |-> ok])
            /\ UNCHANGED req
Attempt == \* the operator yields one more pipeline; stop at the first new one
  /\ Len(h) < MaxLen
  /\ \E p \in Pipes, kd \in {"mutate", "mate"} :
      /\ req # None => kd = req.kind
      /\ LET atts == Append(req.atts, p) IN
        IF p \notin done \/ Len(atts) = Retry
        THEN req' = None /\ h' = Append(h, [op |-> kd, atts |-> atts])
        ELSE req' = [atts |-> atts, kind |-> kd] /\ h' = h
  /\ UNCHANGED done
Next == Evaluate \/ Attempt
Last == h[Len(h)]
(* the one-at-a-time loop satisfies the declarative statement *)
LoopOK == (h # <<>> /\ Last.op # "eval" /\ req = None) =>
   /\ Len(Last.atts) <= Retry
   /\ Used(done, Last.atts, Len(Last.atts)) = Len(Last.atts)
   /\ (\E p \in RangeOf(Last.atts) : p \notin done) => Last.atts[Len(Last.atts)] \notin done
   /\ (Last.atts[Len(Last.atts)] \in done) => Len(Last.atts) = Retry
Emit == (Len(h') = MaxLen /\ req' = None) => EmitPath(h')
=============================================================================
