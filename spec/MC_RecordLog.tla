---------------------------- MODULE MC_RecordLog ----------------------------
(* Evaluations are logged while any number of reports are opened and updated. *)
EXTENDS Records
CONSTANTS Reports, MaxLen
VARIABLES log, rep, h
vars == <<log, rep, h>>
Closed == [rows |-> <<>>, pos |-> -1]
Init == log = NewLog /\ rep = [r \in Reports |-> Closed] /\ h = <<>>
Ok(k) == k
Evaluate == \E ok \in BOOLEAN : /\ log' = LogOne(log, Len(log.lines) + 1)
                                /\ h' = Append(h, [op |-> "eval", ok |-> ok, r |-> 0]) /\ UNCHANGED rep
Open == \E r \in Reports : /\ rep[r] = Closed /\ rep' = [rep EXCEPT ![r] = UpdateReport(NewReport, log)]
                           /\ h' = Append(h, [op |-> "open", ok |-> TRUE, r |-> r]) /\ UNCHANGED log
Update == \E r \in Reports : /\ rep[r] # Closed /\ rep' = [rep EXCEPT ![r] = UpdateReport(@, log)]
                             /\ h' = Append(h, [op |-> "update", ok |-> TRUE, r |-> r]) /\ UNCHANGED log
Next == Len(h) < MaxLen /\ (Evaluate \/ Open \/ Update)
OnceEach == \A r \in Reports : rep[r] # Closed => rep[r].rows = SubSeq(log.lines, 1, rep[r].pos)
UpToDate == (h # <<>> /\ h[Len(h)].op # "eval") => rep[h[Len(h)].r].rows = log.lines
Emit == Len(h') = MaxLen => EmitPath(h')
=============================================================================
