------------------------------ MODULE MC_Compile ------------------------------
(* Pipelines are built from individuals and fitted on data, in every order.  A
   pipeline's state is the data it was fitted on last (0: none); it consists of the
   states of its steps, of which the fixed ones must not be shared between pipelines. *)
EXTENDS Compile
CONSTANTS Inds, Data, MaxLen, MaxPipes
VARIABLES pipes, heap, h
vars == <<pipes, heap, h>>
Ind(i) == [k \in 1..i |-> [p |-> IF k = 1 THEN "predictor" ELSE "step", h |-> i * 10 + k]]
Pre == <<[p |-> "imputer", h |-> 0]>>
Init == pipes = <<>> /\ heap = <<>> /\ h = <<>>
Build(i) == /\ Len(pipes) < MaxPipes
            /\ LET n == Len(Built(Pre, Ind(i))) IN
               /\ pipes' = Append(pipes, [ind |-> i, what |-> Built(Pre, Ind(i)), at |-> [k \in 1..n |-> Len(heap) + k], fit |-> 0])
               /\ heap' = heap \o [k \in 1..n |-> 0]
            /\ h' = Append(h, [op |-> "build", i |-> i, d |-> 0])
Fit(q, d) == /\ q \in DOMAIN pipes
             /\ heap' = [a \in DOMAIN heap |-> IF a \in RangeOf(pipes[q].at) THEN d ELSE heap[a]]
             /\ pipes' = [pipes EXCEPT ![q].fit = d]
             /\ h' = Append(h, [op |-> "fit", i |-> q, d |-> d])
Next == Len(h) < MaxLen /\ (\E i \in Inds : Build(i) \/ \E q \in 1..MaxPipes, d \in Data : Fit(q, d))
(* every step of a pipeline is in the state in which fitting that very pipeline left it *)
Independent == \A q \in DOMAIN pipes : \A a \in RangeOf(pipes[q].at) : heap[a] = pipes[q].fit
Faithful == \A q \in DOMAIN pipes : /\ OwnPart(pipes[q].what, Ind(pipes[q].ind)) = Rev(Ind(pipes[q].ind))
                                    /\ FixedPart(pipes[q].what, Ind(pipes[q].ind)) = Pre
                                    /\ pipes[q].what[Len(pipes[q].what)] = Ind(pipes[q].ind)[1]
Emit == (Len(h') = MaxLen) => EmitPath(h')
=============================================================================
