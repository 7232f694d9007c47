------------------------------ MODULE MC_Pool ------------------------------
(* Pool as implemented: FIFO input, each worker runs one call, results are
   handed back through an output queue and matched to their handle. *)
EXTENDS Pool
CONSTANTS Workers, MaxLen, Kinds
VARIABLES input, running, output, open, returned, n, h
vars == <<input, running, output, open, returned, n, h>>
Init == input = <<>> /\ running = <<>> /\ output = <<>> /\ open = {} /\ returned = <<>> /\ n = 0 /\ h = <<>>
More == Len(h) < MaxLen
Submit == /\ More /\ \E kd \in Kinds : h' = Append(h, [op |-> "submit", kind |-> kd])
          /\ n' = n + 1 /\ input' = Append(input, n + 1) /\ open' = open \cup {n + 1}
          /\ UNCHANGED <<running, output, returned>>
Take == /\ input # <<>> /\ Len(running) < Workers
        /\ running' = Append(running, Head(input)) /\ input' = Tail(input)
        /\ UNCHANGED <<output, open, returned, n, h>>
Finish(k) == /\ k \in DOMAIN running
             /\ output' = Append(output, running[k])
             /\ running' = SubSeq(running, 1, k - 1) \o SubSeq(running, k + 1, Len(running))
             /\ UNCHANGED <<input, open, returned, n, h>>
Wait == /\ More /\ output # <<>>
        /\ returned' = Append(returned, Head(output)) /\ output' = Tail(output)
        /\ open' = open \ {Head(output)}
        /\ h' = Append(h, [op |-> "wait", id |-> Head(output)])
        /\ UNCHANGED <<input, running, n>>
WaitNone == /\ More /\ open = {} /\ h' = Append(h, [op |-> "waitnone"])
            /\ UNCHANGED <<input, running, output, open, returned, n>>
Next == Submit \/ Take \/ (\E k \in 1..Workers : Finish(k)) \/ Wait \/ WaitNone
(* each call is in exactly one place, and comes back at most once *)
Places == RangeOf(input) \cup RangeOf(running) \cup RangeOf(output)
Conserved == /\ Places = open
             /\ Len(input) + Len(running) + Len(output) = Cardinality(open)
             /\ RangeOf(returned) \cup open = 1..n
             /\ Cardinality(RangeOf(returned)) = Len(returned)
             /\ RangeOf(returned) \cap open = {}
Progress == open # {} => (output # <<>> \/ running # <<>> \/ input # <<>>)
Emit == (Len(h') = MaxLen /\ h' # h) => EmitPath(h')
=============================================================================
