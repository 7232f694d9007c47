-------------------------- MODULE MC_RandomSearch --------------------------
EXTENDS RandomSearch
CONSTANTS Workers, NStart, MaxLen, MaxRes
VARIABLES out, nsub, results, h, stopped
vars == <<out, nsub, results, h, stopped>>
DropAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Init == out = [k \in 1..NStart |-> k] /\ nsub = NStart /\ results = <<>> /\ h = <<>> /\ stopped = FALSE
Next == /\ Len(h) < MaxLen /\ ~stopped
        /\ \E k \in 1..MinOf({Workers, NStart}), oc \in {"ok", "err", "exc"} :
             /\ results' = IF HasResult(oc) THEN Append(results, out[k]) ELSE results
             /\ out' = Append(DropAt(out, k), nsub + 1)
             /\ nsub' = nsub + 1
             /\ h' = Append(h, [k |-> k, out |-> oc, v |-> <<1>>])
             /\ stopped' = Finished(results', MaxRes)
Constant == Len(out) = NStart
Once == Cardinality(RangeOf(results)) = Len(results)
NotOutstanding == RangeOf(results) \cap RangeOf(out) = {}
Accounted == Len(results) = Cardinality({k \in DOMAIN h : HasResult(h[k].out)})
StopsExactly == MaxRes > 0 => Len(results) <= MaxRes
Emit == (Len(h') = MaxLen \/ stopped') => EmitPath(h')
=============================================================================
