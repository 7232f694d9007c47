---------------------------- MODULE EncodingTrace ----------------------------
(* encode: features and the columns made of them; later: the same for rows to
   predict; inside: what the last step of a pipeline was given. *)
EXTENDS Encoding, TraceUtil
VARIABLES r, i, st
Start(run) == [n |-> 0, train |-> <<>>]
ColsOf(e, name) == SelectSeq(e.cols, LAMBDA c : c.feature = name)
Entries(cs) == [k \in DOMAIN cs |-> cs[k].vals]
Fits(e, f) ==
  LET cs == ColsOf(e, f.name)  t == Treatment(f, e.cls) IN
  Clause("one column, one per value, or none: " \o t, Len(cs) \in Columns(f, e.cls))
  \cup (IF Len(cs) \notin Columns(f, e.cls) THEN {} ELSE
    CASE t = "same" -> Clause("numeric features are unchanged", cs[1].vals = f.text)
      [] t = "left" -> Clause("features for target encoding are left", cs[1].vals = f.text)
      [] t = "ordinal" -> Clause("the ordinal column tells values apart", Identifies(f.vals, cs[1].vals))
      [] t = "indicator" -> Clause("indicators mark the value", IndicatesFast(f.vals, Entries(cs)))
      [] OTHER -> {})
(* training and prediction rows together: the same encoding is applied *)
Joined(f, g) == [f EXCEPT !.vals = @ \o [k \in DOMAIN g.vals |-> IF g.vals[k] \in Present(f.vals) THEN g.vals[k] ELSE 0]]
Same(s, e, k) ==
  LET f == s.train.features[k]  g == e.features[k]  cs == ColsOf(s.train, f.name)  ds == ColsOf(e, f.name)
      t == Treatment(f, s.train.cls)  j == Joined(f, g) IN
  Clause("the same columns for prediction", [q \in DOMAIN ds |-> ds[q].name] = [q \in DOMAIN cs |-> cs[q].name])
  \cup (IF Len(ds) # Len(cs) THEN {} ELSE
    CASE t = "same" -> Clause("numeric features are unchanged", ds[1].vals = g.text)
      [] t = "ordinal" -> Clause("the same codes for prediction", Identifies(j.vals, cs[1].vals \o ds[1].vals))
      [] t = "indicator" -> Clause("the same indicators for prediction", IndicatesFast(j.vals, [q \in DOMAIN cs |-> cs[q].vals \o ds[q].vals]))
      [] OTHER -> {})
Fails(s, e) ==
  CASE e.op = "encode" ->
         Clause("training data of any features can be encoded", e.raised = "")
         \cup (IF e.raised # "" THEN {} ELSE
           Clause("every row is kept, in order", e.order = [k \in 1..e.rows |-> k])
           \cup Clause("columns belong to features", \A c \in RangeOf(e.cols) : c.feature \in {f.name : f \in RangeOf(e.features)})
           \cup UNION {Fits(e, f) : f \in RangeOf(e.features)})
    [] e.op = "later" ->
         Clause("missing and unseen values do not make prediction fail", e.raised = "")
         \cup (IF e.raised # "" THEN {} ELSE
           Clause("every row is kept, in order", e.order = [k \in 1..e.rows |-> k])
           \cup UNION {Same(s, e, k) : k \in DOMAIN e.features})
    [] e.op = "answers" ->
         Clause("missing and unseen values do not make prediction fail", e.raised = "")
         \cup Clause("one prediction per row", e.raised = "" => e.got = e.rows)
         \cup Clause("inside the pipeline all features are numbers", e.raised = "" => e.finite)
    [] OTHER -> {"unknown event"}
Apply(s, e) == IF e.op = "encode" THEN [s EXCEPT !.train = e] ELSE s
EndFails(s, run) == {}
INSTANCE TraceCheck
=============================================================================
