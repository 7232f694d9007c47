----------------------------- MODULE SearchSpace -----------------------------
(***************************************************************************)
(* Search-space configurations (C19).  A configuration is a record          *)
(*   shared : name -> set of values   (shared hyperparameters)              *)
(*   ops    : class -> [kind, hps : name -> set of values, uses : names]    *)
(* where uses are the hyperparameters taken from the shared lists.          *)
(***************************************************************************)
EXTENDS Util

Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE {}
EmptyFn == [k \in {} |-> {}]
Empty == [shared |-> EmptyFn, ops |-> [k \in {} |-> [kind |-> "", hps |-> EmptyFn, uses |-> {}]]]

(* ---- what a parsed configuration offers ---- *)
Slots(op) == {<<"own", n>> : n \in DOMAIN op.hps} \cup {<<"shared", n>> : n \in op.uses}
Choices(c, k, slot) == IF slot[1] = "own" THEN c.ops[k].hps[slot[2]] ELSE Get(c.shared, slot[2])
Offers(c) == {[name |-> k, kind |-> c.ops[k].kind,
               slots |-> {<<s[1], s[2], Choices(c, k, s)>> : s \in Slots(c.ops[k])}] : k \in DOMAIN c.ops}

(* ---- merging ---- *)
MergeFn(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> Get(f, k) \cup Get(g, k)]
MergeOp(a, b) == [kind |-> a.kind, hps |-> MergeFn(a.hps, b.hps), uses |-> a.uses \cup b.uses]
Merge(c, d) ==
  [shared |-> MergeFn(c.shared, d.shared),
   ops |-> [k \in DOMAIN c.ops \cup DOMAIN d.ops |->
             IF k \notin DOMAIN c.ops THEN d.ops[k]
             ELSE IF k \notin DOMAIN d.ops THEN c.ops[k] ELSE MergeOp(c.ops[k], d.ops[k])]]

(* ---- classifiers without probabilities ---- *)
Restrict(c, needed) ==
  [c EXCEPT !.ops = [k \in {k \in DOMAIN c.ops : ~(needed /\ c.ops[k].kind = "labels-only")} |-> c.ops[k]]]

(* ---- recorded configurations (JSON) as above ---- *)
Dec(j) == [shared |-> [n \in DOMAIN j.shared \ {"_"} |-> RangeOf(j.shared[n])],
           ops |-> [k \in DOMAIN j.ops \ {"_"} |->
                     [kind |-> j.ops[k].kind,
                      hps |-> [n \in DOMAIN j.ops[k].hps \ {"_"} |-> RangeOf(j.ops[k].hps[n])],
                      uses |-> RangeOf(j.ops[k].uses)]]]
=============================================================================
