----------------------------- MODULE MC_Isolation -----------------------------
(* As implemented: fitting wraps the pool's constructor once more with the object's
   settings and replaces the pool's class-wide defaults; the wrapper applied last wins.
   Every pool and worker started during the fit reads these globals. *)
EXTENDS Isolation
CONSTANTS N, MaxLen, Data
VARIABLES built, fitted, chain, defaults, cur, pool, uses, h
vars == <<built, fitted, chain, defaults, cur, pool, uses, h>>
Set(o) == [jobs |-> o, memory |-> 100 * o, evaltime |-> 10 * o, total |-> 300 * o, metrics |-> o, dir |-> o, salt |-> o]
Init == /\ built = {} /\ fitted = [o \in 1..N |-> 0] /\ chain = <<>> /\ defaults = <<>> /\ cur = 0
        /\ pool = <<>> /\ uses = <<>> /\ h = <<>>
Quiet == UNCHANGED <<fitted, chain, defaults, cur, pool, uses>>
Construct(o) == /\ o \notin built /\ \A p \in 1..(o - 1) : p \in built    (* objects are interchangeable *)
                /\ built' = built \cup {o} /\ h' = Append(h, [op |-> "construct", o |-> o, d |-> 0, inside |-> cur # 0]) /\ Quiet
Predict(o) == /\ fitted[o] # 0 /\ o # cur /\ h' = Append(h, [op |-> "predict", o |-> o, d |-> 0, inside |-> cur # 0])
              /\ UNCHANGED built /\ Quiet
Begin(o, d) == /\ cur = 0 /\ o \in built
               /\ h' = Append(h, [op |-> "fit", o |-> o, d |-> d, inside |-> FALSE])
               /\ cur' = o /\ chain' = Append(chain, [jobs |-> Set(o).jobs, memory |-> Set(o).memory, dir |-> Set(o).dir])
               /\ defaults' = [metrics |-> Set(o).metrics, data |-> d]
               /\ pool' = <<>> /\ UNCHANGED <<built, fitted, uses>>
(* the search starts its pool and evaluates *)
Search == /\ cur # 0 /\ pool = <<>>
          /\ pool' = <<[o |-> cur, d |-> h[CHOOSE k \in DOMAIN h : h[k].op = "fit" /\ \A j \in (k + 1)..Len(h) : h[j].op # "fit"].d,
                        use |-> [jobs |-> chain[Len(chain)].jobs, memory |-> chain[Len(chain)].memory, evaltime |-> Set(cur).evaltime,
                                 total |-> Set(cur).total, metrics |-> defaults.metrics, dir |-> chain[Len(chain)].dir, salt |-> Set(cur).salt,
                                 data |-> defaults.data]]>>
          /\ uses' = Append(uses, pool'[1]) /\ UNCHANGED <<built, fitted, chain, defaults, cur, h>>
End == /\ cur # 0 /\ pool # <<>> /\ fitted' = [fitted EXCEPT ![cur] = pool[1].d] /\ cur' = 0 /\ pool' = <<>>
       /\ UNCHANGED <<built, chain, defaults, uses, h>>
Next == \/ /\ Len(h) < MaxLen /\ (\E o \in 1..N : Construct(o) \/ Predict(o) \/ \E d \in Data : Begin(o, d))
           /\ (cur # 0 => pool # <<>>)
        \/ Search \/ End
(* every fit used exactly its own settings and data *)
Own == \A k \in DOMAIN uses : uses[k].use = Uses(Set(uses[k].o), uses[k].d)
Emit == h' # h => EmitPath(h')
=============================================================================
