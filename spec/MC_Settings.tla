----------------------------- MODULE MC_Settings -----------------------------
(* All combinations of the settings that select parts, and histories of fits of one
   object on data of different sizes. *)
EXTENDS Settings
CONSTANTS Jobs, Cores, Presets, Posts, Lengths, StepLimits, MaxFits
VARIABLES c, fits, h
vars == <<c, fits, h>>
None == [jobs |-> "none"]
Configs == [jobs : Jobs, n : {1, 3}, cores : Cores, preset : Presets, post : Posts, search : {"unset"}, length : Lengths,
            steps : StepLimits, preproc : BOOLEAN, metrics : {1, 2}]
Data == {[cells |-> 300, features |-> 3], [cells |-> 6000000, features |-> 50], [cells |-> 6000060, features |-> 60], [cells |-> 2040, features |-> 51]}
Init == c \in Configs /\ (c.jobs # "n" => c.n = 1) /\ fits = <<>> /\ h = <<[op |-> "configure", c |-> c]>>
Fit(d) == /\ ~Rejected(c) /\ Len(fits) < MaxFits
          /\ fits' = Append(fits, [p |-> Predictors({"knn", "other"}, Post(c) = "ensemble", d), s |-> Steps({"poly", "scale"}, Post(c) = "ensemble", d)])
          /\ h' = Append(h, [op |-> "fit", d |-> d])
          /\ UNCHANGED c
Next == \E d \in Data : Fit(d)
Working == ~Rejected(c) => Workers(c) >= 1 /\ Workers(c) <= Max2(c.cores, c.n) /\ Post(c) \in {"best", "ensemble"}
Limits == ~Rejected(c) => MaxStart(c) >= 1 /\ (MaxSteps(c) > 0 => MaxStart(c) <= MaxSteps(c)) /\ (~c.preproc => MaxStart(c) = 1)
Offers == \A k \in DOMAIN fits : fits[k].p # {} /\ fits[k].s # {}
Emit == (Len(fits') = MaxFits) => EmitPath(h')
=============================================================================
