----------------------------- MODULE StatStore -----------------------------
(* The store: names, the counters that exist, what is stored under each, and  *)
(* what flushing, deleting, restarting and crashing mean for them.            *)
(* Names are sequences of character codes. Nothing here says how the store    *)
(* does it; where several outcomes are right until the store has come to rest *)
(* the state holds bounds (what must, and what may, be there).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Dot == 46
Star == 42
Quest == 63
IV == 10            \* interval of the finest file used here

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* ------------------------------------------------------------- names
MungeChar(c) == IF c < 33 \/ c > 126 \/ c \in {47, 58, 92, 34, 39} THEN 95
                ELSE IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Munge(s) == [j \in 1..Len(s) |-> MungeChar(s[j])]
Drop(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
RECURSIVE Collapse(_)
\* empty parts make no difference to a name
Collapse(s) ==
  IF Len(s) = 0 THEN s
  ELSE IF s[1] = Dot THEN Collapse(Tail(s))
  ELSE IF s[Len(s)] = Dot THEN Collapse(SubSeq(s, 1, Len(s) - 1))
  ELSE LET d == {j \in 2..Len(s) : s[j] = Dot /\ s[j - 1] = Dot}
       IN IF d = {} THEN s ELSE Collapse(Drop(s, Min(d)))
IsEvent(s) == Len(s) > 0 /\ s[1] = Star
Plain(s) == IF IsEvent(s) THEN Tail(s) ELSE s
Canon(s) == Collapse(Munge(Plain(s)))
Kind(s) == IF IsEvent(s) THEN "event" ELSE "gauge"
Dots(n) == {j \in 1..Len(n) : n[j] = Dot}
Above(n) == {SubSeq(n, 1, j - 1) : j \in Dots(n)}          \* enclosing names
Closure(S) == S \cup UNION {Above(n) : n \in S}
Parent(n) == SubSeq(n, 1, Max(Dots(n)) - 1)
RECURSIVE Levels(_, _)
\* the name and its k nearest enclosing names
Levels(n, k) == IF Dots(n) = {} \/ k = 0 THEN <<n>> ELSE <<n>> \o Levels(Parent(n), k - 1)

\* ------------------------------------------------------------- patterns
RECURSIVE MatchAt(_, _, _, _)
MatchAt(s, i, p, j) ==
  IF j > Len(p) THEN i > Len(s)
  ELSE IF p[j] = Star THEN \E k \in i..(Len(s) + 1) : MatchAt(s, k, p, j + 1)
  ELSE IF p[j] = Quest THEN \E k \in i..(Len(s) + 1) : (\A x \in i..(k - 1) : s[x] # Dot) /\ MatchAt(s, k, p, j + 1)
  ELSE i <= Len(s) /\ s[i] = p[j] /\ MatchAt(s, i + 1, p, j + 1)
Match(s, p) == MatchAt(s, 1, p, 1)

\* what a listing shows for a set of counters (name -> kind)
Display(K, n) == IF n \in DOMAIN K /\ ~\E m \in DOMAIN K : n \in Above(m) THEN [n |-> n, leaf |-> TRUE, type |-> K[n]]
                 ELSE [n |-> n, leaf |-> FALSE, type |-> "aggregate"]
Listing(K, p) == {Display(K, n) : n \in {m \in Closure(DOMAIN K) : Match(m, p)}}

\* ------------------------------------------------------------- contents
\* per interval: lo = what must be there, hi = what may be there, dur = what must survive a crash;
\* c, q, mn, mx describe the bucket when lo = hi (gauges)
NoBucket == [lo |-> 0, hi |-> 0, dur |-> 0, c |-> 0, q |-> 0, mn |-> 0, mx |-> 0]
At(b, t) == IF t \in DOMAIN b THEN b[t] ELSE NoBucket
AlignDown(t) == t - (t % IV)
Put(b, t, x) == (t :> x) @@ b
\* d: [v, q, mn, mx, c]
AddTo(ctr, t, d, sure) ==
  LET a == AlignDown(t)
      x == At(ctr.b, a)
      v == IF ctr.k = "event" /\ ctr.sure THEN d.v \div IV ELSE d.v   \* the kind of an unsure one is not known
  IN [ctr EXCEPT !.b = Put(@, a,
        [lo |-> x.lo + (IF sure THEN v ELSE 0), hi |-> x.hi + v, dur |-> x.dur,
         c |-> x.c + d.c, q |-> x.q + d.q,
         mn |-> IF x.c = 0 THEN d.mn ELSE Min2(x.mn, d.mn), mx |-> IF x.c = 0 THEN d.mx ELSE Max2(x.mx, d.mx)])]
NewCtr(k, sure) == [k |-> k, sure |-> sure, b |-> <<>>]

\* ------------------------------------------------------------- the store
\* C: name -> counter (sure: it exists; otherwise it may)
\* D: name -> counter deleted, with the deletion possibly still at work
\* until, fly: events before this time, or while so many flushes are under way, may be refused (a
\* forced flush closes intervals)
NewStore(mode, agg) == [mode |-> mode, agg |-> agg, C |-> <<>>, D |-> <<>>, until |-> 0, fly |-> 0]

Names(S) == DOMAIN S.C
Sure(S) == {n \in DOMAIN S.C : S.C[n].sure}
Unsure(S) == DOMAIN S.C \ Sure(S)
SetC(S, n, x) == [S EXCEPT !.C = (n :> x) @@ @]

\* enclosing names: created with the counter; one above a name that exists already may be missing (if it
\* was deleted) and may come back
AddParents(S, k, ps, sure) ==
  LET missing == ps \ Names(S)
      there == {p \in ps : p \in Names(S) \/ p \in DOMAIN S.D}
      mk(p) == NewCtr(k, sure /\ p \notin DOMAIN S.D /\ ~\E q \in there : p \in Above(q))
  IN [S EXCEPT !.C = [n \in Names(S) \cup missing |-> IF n \in missing THEN mk(n) ELSE S.C[n]]]
Conflict(S, n) == S.mode = "flat" /\ \E p \in Above(n) : p \in Names(S) \/ p \in DOMAIN S.D
\* open n for writing, creating what the mode says
Touch(S, n, k) ==
  IF n \in Sure(S) THEN S
  ELSE IF n \in Names(S) THEN (IF S.mode = "rec" THEN AddParents(S, k, Above(n), FALSE) ELSE S)
  ELSE IF Conflict(S, n) THEN S
  ELSE LET sure == n \notin DOMAIN S.D
           S1 == SetC(S, n, NewCtr(k, sure))
       IN IF S.mode = "rec" THEN AddParents(S1, k, Above(n), sure) ELSE S1
RECURSIVE RecordIn(_, _, _, _, _)
RecordIn(S, ns, k, t, d) ==
  IF ns = <<>> THEN S
  ELSE LET n == ns[1]
           S1 == Touch(S, n, k)
           S2 == IF n \in Names(S1)
                 THEN [S1 EXCEPT !.C[n] = AddTo(@, t, d, @.sure /\ (@.k = "event" => t >= S.until /\ S.fly = 0))]
                 ELSE S1
       IN RecordIn(S2, Tail(ns), k, t, d)
Record(S, name, t, d) ==
  LET n == Canon(name) IN IF n = <<>> THEN S ELSE RecordIn(S, Levels(n, S.agg), Kind(name), t, d)

\* through a handle found earlier
RecordHandle(S, n, gen, t, d) ==
  IF n \in Names(S) /\ gen = "maybe" THEN [S EXCEPT !.C[n] = AddTo(@, t, d, FALSE)]
  ELSE IF n \in Names(S) /\ gen = "live" THEN [S EXCEPT !.C[n] = AddTo(@, t, d, @.sure /\ (@.k = "event" => t >= S.until /\ S.fly = 0))]
  ELSE IF n \in DOMAIN S.D THEN [S EXCEPT !.D[n].ctr = AddTo(@, t, d, FALSE)]
  ELSE S

Merge(a, b) == \* two incarnations, either of which may be meant
  [k |-> a.k, sure |-> FALSE,
   b |-> [t \in DOMAIN a.b \cup DOMAIN b.b |->
            [NoBucket EXCEPT !.hi = At(a.b, t).hi + At(b.b, t).hi, !.c = -1000000]]]
DeleteOne(S, n) ==
  IF n \in Names(S)
  THEN [S EXCEPT !.C = [m \in DOMAIN S.C \ {n} |-> S.C[m]],
                 !.D = (n :> IF n \in DOMAIN S.D
                             THEN [ctr |-> Merge(S.D[n].ctr, S.C[n]), lo |-> S.D[n].lo, hi |-> S.D[n].hi + 1]
                             ELSE [ctr |-> S.C[n], lo |-> (IF S.C[n].sure THEN 1 ELSE 0), hi |-> 1]) @@ @]
  ELSE S
RECURSIVE DeleteAll(_, _)
DeleteAll(S, ns) == IF ns = {} THEN S ELSE LET n == CHOOSE x \in ns : TRUE IN DeleteAll(DeleteOne(S, n), ns \ {n})
Delete(S, name) == DeleteOne(S, Canon(name))
DeletePattern(S, p) == DeleteAll(S, {n \in Names(S) : Match(n, p)})

\* a flush that was asked for now must leave this behind
Promise(S) == [n \in Sure(S) |-> [t \in DOMAIN S.C[n].b |-> S.C[n].b[t].lo]]
Kept(S, promise, done) == \* what a completed flush makes durable
  [S EXCEPT !.C = [n \in DOMAIN S.C |->
     IF n \notin DOMAIN promise THEN S.C[n]
     ELSE [S.C[n] EXCEPT !.b = [t \in DOMAIN S.C[n].b |->
       IF t \in DOMAIN promise[n] THEN [S.C[n].b[t] EXCEPT !.dur = Max2(@, promise[n][t])] ELSE S.C[n].b[t]]]]]
AfterFlush(S, now) == [S EXCEPT !.until = Max2(@, now) + 70, !.fly = @ + 1]
DoneFlush(S, now) == [S EXCEPT !.until = Max2(@, now) + 70, !.fly = @ - 1]

Reopened(S) == IF S.mode = "rec" THEN AddParents(S, "gauge", Closure(Names(S)) \ Names(S), FALSE) ELSE S
\* orderly restart of a store at rest: nothing is lost; in recursive mode each enclosing name is a counter again
Restart(S) ==
  Reopened([S EXCEPT !.until = 0, !.fly = 0])
\* a crash: what was flushed is there, later samples may be
Crash(S) ==
  LET C1 == [n \in DOMAIN S.C |-> [S.C[n] EXCEPT !.b = [t \in DOMAIN S.C[n].b |-> [S.C[n].b[t] EXCEPT !.lo = S.C[n].b[t].dur]]]]
      back == DOMAIN S.D      \* a deletion may or may not have happened
      C2 == [n \in DOMAIN C1 \cup back |->
               IF n \notin back THEN C1[n]
               ELSE IF n \in DOMAIN C1 THEN [Merge(S.D[n].ctr, C1[n]) EXCEPT !.k = "any"]
               ELSE [S.D[n].ctr EXCEPT !.sure = FALSE, !.b = [t \in DOMAIN S.D[n].ctr.b |-> [S.D[n].ctr.b[t] EXCEPT !.lo = 0, !.dur = 0]]]]
  IN Reopened([S EXCEPT !.C = C2, !.D = <<>>, !.until = 0, !.fly = 0])
=============================================================================
