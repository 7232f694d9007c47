------------------------------ MODULE MC_Budget ------------------------------
(* The phases of fits of one object: preprocessing, search with evaluations,
   post-processing.  Each phase takes any time within what it is given, an
   evaluation is cut off at its own limit.  The budget is renewed per fit. *)
EXTENDS Timing
CONSTANTS Total, MaxEval, F, Steps, MaxEvals, Fits
VARIABLES ph, now, start, limit, send, post, n, fits, over, h
vars == <<ph, now, start, limit, send, post, n, fits, over, h>>
Init == /\ ph = "idle" /\ now = 0 /\ start = 0 /\ limit = 0 /\ send = 0 /\ post = 0 /\ n = 0 /\ fits = 0
        /\ over = FALSE /\ h = <<>>
Left == Total - (now - start)
Floor(limit4) == (limit4 \div 4) * 4
Pre == /\ ph = "idle" /\ fits < Fits /\ \E d \in Steps \cup {0} :
         /\ start' = now /\ now' = now + d /\ ph' = (IF d > Total THEN "failed" ELSE "pre") /\ fits' = fits + 1
         /\ h' = Append(h, [op |-> "pre", d |-> d])
       /\ n' = 0 /\ UNCHANGED <<limit, send, post, over>>
Search == /\ ph = "pre" /\ limit' = Floor(((1000 - F) * Left) \div 1000) /\ send' = now + limit' /\ ph' = "search"
          /\ h' = Append(h, [op |-> "search"]) /\ UNCHANGED <<now, start, post, n, fits, over>>
Eval == /\ ph = "search" /\ n < MaxEvals /\ now < send
        /\ \E want \in Steps : LET d == Min2(want, EvalLimit(MaxEval, send, now)) IN
             now' = now + d /\ h' = Append(h, [op |-> "eval", d |-> d])
        /\ n' = n + 1 /\ over' = (over \/ now' > send) /\ UNCHANGED <<ph, start, limit, send, post, fits>>
Post == /\ ph = "search" /\ post' = Left /\ ph' = "post" /\ h' = Append(h, [op |-> "post"])
        /\ UNCHANGED <<now, start, limit, send, n, fits, over>>
End == /\ ph \in {"post", "failed"} /\ ph' = "idle" /\ UNCHANGED <<now, start, limit, send, post, n, fits, over, h>>
Next == Pre \/ Search \/ Eval \/ Post \/ End
NeverPastEnd == ~over
SearchWithin == ph \in {"search", "post"} => send <= start + Total
(* what is reserved for post-processing is there, if the search keeps to its limit *)
Reserved == ph = "post" /\ now <= send => 1000 * post >= F * (post + limit)
TotalKept == ph = "post" => now + post = start + Total
Emit == (ph' = "idle" /\ ph # "idle" /\ fits = Fits) => EmitPath(h)
=============================================================================
