---------------------------- MODULE LibraryTrace ----------------------------
(* Recorded histories of the real library against Library.tla (C09).
   run: m, n (rows to keep, <0: all), N (rows), sample (explicit rows or <<>>),
        strat (class per row, or <<>>)
   choose: rows are chosen by class.
   save: the evaluation plus the complete observable state afterwards.
   best: a query.                                                           *)
EXTENDS Library, TraceUtil
VARIABLES r, i, st

Start(run) == [m |-> run.m, n |-> run.n, N |-> run.N, sample |-> run.sample,
               strat |-> run.strat, saved |-> <<>>, rows |-> <<>>]

KeptRows(s) == IF s.sample # <<>> THEN Len(s.sample)
               ELSE IF s.n < 0 \/ s.n >= s.N THEN s.N ELSE s.n

(* enough rows to keep, and to leave out, of every class *)
CanStratify(s) ==
  LET C == RangeOf(s.strat) IN
  /\ Cardinality(C) <= s.n /\ Cardinality(C) <= s.N - s.n
  /\ \A c \in C : Count(s.strat, c) >= 2

(* the rows offered by one evaluation: values are id*1000 + row *)
Row(o, k) == o.pred[k] - o.id * 1000

SaveFails(s, e) ==
  LET s2 == Append(s.saved, [id |-> e.id, score |-> e.score, ok |-> e.ok])
      top == RangeOf(e.offered)
      rows == IF s.rows = <<>> /\ e.obs # <<>>
              THEN [k \in 1..Len(e.obs[1].pred) |-> Row(e.obs[1], k)] ELSE s.rows
  IN Clause("save raised an error", e.raised = "")
     \cup Clause("every evaluation is recorded exactly once",
            IsPermutation(e.ids, [k \in DOMAIN s2 |-> s2[k].id]))
     \cup Clause("recorded scores and errors are unchanged",
            \A k \in DOMAIN e.recs : e.recs[k].id \in Ids(s2) /\
               LET x == Rec(s2, e.recs[k].id) IN
               x.score = e.recs[k].score /\ x.ok = e.recs[k].ok)
     \cup Clause("models are offered for exactly the m best",
            Cardinality(top) = Len(e.offered) /\ IsTop(s2, top, s.m))
     \cup Clause("predictions are offered exactly where estimators are",
            {e.obs[k].id : k \in DOMAIN e.obs} = top)
     \cup Clause("one cache file per kept model", e.files = Cardinality(top))
     \cup Clause("offered estimators belong to the evaluation",
            \A k \in DOMAIN e.obs : e.obs[k].est = e.obs[k].id)
     \cup Clause("the kept rows are the same for every evaluation",
            \A k \in DOMAIN e.obs : Len(e.obs[k].pred) = Len(rows) /\
               \A j \in 1..Len(rows) : Row(e.obs[k], j) = rows[j])
     \cup Clause("number of kept rows", rows # <<>> => Len(rows) = KeptRows(s))
     \cup Clause("kept rows are distinct rows of the data",
            RangeOf(rows) \subseteq 0..(s.N - 1) /\ Cardinality(RangeOf(rows)) = Len(rows))
     \cup Clause("the requested rows are kept", (rows # <<>> /\ s.sample # <<>>) => rows = s.sample)
     \cup Clause("all rows are kept in order",
            (rows # <<>> /\ s.sample = <<>> /\ Len(rows) = s.N) => rows = [k \in 1..s.N |-> k - 1])
     \cup Clause("kept rows are stratified by class",
            (rows # <<>> /\ s.strat # <<>> /\ KeptRows(s) < s.N /\ CanStratify(s)) =>
            \A c \in RangeOf(s.strat) :
              LET got == Cardinality({k \in DOMAIN rows : s.strat[rows[k] + 1] = c})
                  d == got * s.N - Len(rows) * Count(s.strat, c)
              IN d <= s.N /\ -d <= s.N)

BestFails(s, e) ==
  Clause("query raised an error", e.raised = "")
     \cup Clause("the n best are returned in descending order",
            \/ (e.pipes \/ s.m < 0 \/ e.n <= s.m) /\ IsBest(s.saved, RangeOf(e.top), e.ids, e.n)
            \/ ~e.pipes /\ IsBest(s.saved, Ids(s.saved), e.ids, e.n))

Fails(s, e) == CASE e.op = "save" -> SaveFails(s, e)
                 [] e.op = "choose" -> Clause("rows can be sampled whatever the sizes of the classes", e.raised = "")
                 [] e.op = "best" -> BestFails(s, e)
                 [] OTHER -> {"unknown event"}
Apply(s, e) == CASE e.op = "save" ->
                      [s EXCEPT !.saved = Append(@, [id |-> e.id, score |-> e.score, ok |-> e.ok]),
                                !.rows = IF @ = <<>> /\ e.obs # <<>>
                                         THEN [k \in 1..Len(e.obs[1].pred) |-> Row(e.obs[1], k)] ELSE @]
                 [] OTHER -> s
EndFails(s, run) == Clause("all events recorded", Len(run.ev) > 0)
INSTANCE TraceCheck
=============================================================================
