------------------------------ MODULE Loopback ------------------------------
(* What istatd reports about itself: events (the amount since the last        *)
(* sampling), counts (their value at each sampling) and gauges (each value    *)
(* when it is given); and what the HTTP and administration servers count.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions
PERIOD == 500
\* a handle names a record (events and counts: shared by its copies) or a gauge
Http == << "*istatd.http.requests", "*istatd.http.errors.server", "*istatd.http.errors.http", "*istatd.admin.connections", "*istatd.admin.commands" >>
\* the servers of the process have records of their own from when they are started
NewLoop == [recs |-> [j \in 1..Len(Http) |-> [name |-> Http[j], ev |-> TRUE, n |-> 0]], hs |-> <<>>, up |-> FALSE, now |-> 0, due |-> 0, admin |-> FALSE]
FullName(kind, name) == (IF kind = "event" THEN "*istatd.t." ELSE "istatd.t.") \o name
Handle(S, id, x) == [S EXCEPT !.hs = (id :> x) @@ @]
Make(S, id, kind, name) ==
  IF kind = "gauge" THEN Handle(S, id, [g |-> TRUE, name |-> FullName(kind, name), at |-> 0])
  ELSE [Handle(S, id, [g |-> FALSE, name |-> FullName(kind, name), at |-> Len(S.recs) + 1])
        EXCEPT !.recs = Append(@, [name |-> FullName(kind, name), ev |-> kind = "event", n |-> 0])]
Add(S, at, v) == [S EXCEPT !.recs[at].n = @ + v]
Share(S, i, j) == Handle(S, j, S.hs[i])
\* what was given to a handle stays when it is destroyed
Drop(S, id) == [S EXCEPT !.hs = [k \in DOMAIN @ \ {id} |-> @[k]]]
\* ---- sampling
Shown(S) == IF ~S.up THEN <<>> ELSE LET some == SelectSeq(S.recs, LAMBDA r : r.n # 0) IN [j \in 1..Len(some) |-> <<some[j].name, some[j].n>>]
Sampled(S) == IF ~S.up THEN S ELSE [S EXCEPT !.recs = [j \in 1..Len(@) |-> IF @[j].ev THEN [@[j] EXCEPT !.n = 0] ELSE @[j]]]
Fires(S, by) == S.up /\ S.now + by >= S.due
Pass(S, by) == IF Fires(S, by) THEN [Sampled(S) EXCEPT !.now = @ + by, !.due = S.now + by + PERIOD] ELSE [S EXCEPT !.now = @ + by]
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in ToSet(a) : Cardinality({j \in DOMAIN a : a[j] = x}) = Cardinality({j \in DOMAIN b : b[j] = x})
\* ---- what requests count
Asked(S, code) == LET A == Add(S, 1, 1) B == IF code = 0 THEN Add(A, 2, 1) ELSE A IN IF code = 0 \/ code >= 400 THEN Add(B, 3, 1) ELSE B
Answered(code) == IF code = 0 THEN 400 ELSE code
Current == << <<"istatd.http.current", 1>>, <<"istatd.http.current", 0>> >>
CurrentOf(n) == [j \in 1..(2 * n) |-> <<"istatd.http.current", IF j <= n THEN j ELSE 2 * n - j>>]
RECURSIVE AskedTimes(_, _)
AskedTimes(S, n) == IF n = 0 THEN S ELSE AskedTimes(Asked(S, 200), n - 1)
Status(S) == Add(IF S.admin THEN S ELSE [Add(S, 4, 1) EXCEPT !.admin = TRUE], 5, 1)
\* ---- several threads at once
Total(S, adds, j) == S.recs[j].n + FoldSeq(LAMBDA a, n : n + (IF S.hs[a[1]].at = j /\ ~S.hs[a[1]].g THEN a[2] * a[3] ELSE 0), 0, adds)
Names(S, ev) == {S.recs[j].name : j \in {k \in DOMAIN S.recs : S.recs[k].ev = ev}}
SumOf(S, adds, name) == FoldSeq(LAMBDA j, n : n + (IF S.recs[j].name = name THEN Total(S, adds, j) ELSE 0), 0, [j \in 1..Len(S.recs) |-> j])
HeardSum(heard, name) == FoldSeq(LAMBDA x, n : n + (IF x[1] = name THEN x[2] ELSE 0), 0, heard)
\* what is reported adds up, and when there were only additions no report takes anything back
Rising(S, adds, name) == \A j \in DOMAIN S.recs : S.recs[j].name = name => S.recs[j].n >= 0 /\ \A k \in DOMAIN adds : S.hs[adds[k][1]].at = j => adds[k][3] >= 0
EventsOK(S, adds, heard) == \A name \in Names(S, TRUE) :
  /\ HeardSum(heard, name) = SumOf(S, adds, name)
  /\ Rising(S, adds, name) => \A k \in DOMAIN heard : heard[k][1] = name => heard[k][2] > 0
CountsOK(S, adds, heard) == \A j \in DOMAIN S.recs : ~S.recs[j].ev /\ Total(S, adds, j) # 0 => \E k \in DOMAIN heard : heard[k] = <<S.recs[j].name, Total(S, adds, j)>>
OnlyKnown(S, heard) == \A k \in DOMAIN heard : heard[k][1] \in Names(S, TRUE) \cup Names(S, FALSE)
AfterBurst(S, adds) == [S EXCEPT !.recs = [j \in 1..Len(@) |-> IF @[j].ev THEN [@[j] EXCEPT !.n = 0] ELSE [@[j] EXCEPT !.n = Total(S, adds, j)]]]
=============================================================================
