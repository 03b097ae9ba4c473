----------------------------- MODULE TraceStore -----------------------------
(* Is a recorded execution of the real StatStore a behaviour of StatStore? *)
EXTENDS StatStore, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES h, l, S, fl, bak, now, held, dels, bad
vars == <<h, l, S, fl, bak, now, held, dels, bad>>
\* fl: flush id -> promise; bak: name -> number of backups; held: name -> "live"/"gone"; dels: deletions not yet answered
Init == /\ h \in 1..Len(Hist) /\ l = 1 /\ bad = <<>> /\ S = NewStore("rec", 0) /\ fl = <<>> /\ bak = <<>>
        /\ now = 0 /\ held = <<>> /\ dels = {}
E == Hist[h].ev[l]
SetOf(sq) == {sq[j] : j \in 1..Len(sq)}
Fail(expected) == bad' = [history |-> Hist[h].id, line |-> l, event |-> E, expected |-> expected]
Check(ok, expected, next) ==
  IF ok THEN next /\ bad' = bad /\ l' = l + 1 /\ h' = h
  ELSE Fail(expected) /\ UNCHANGED <<h, l, S, fl, bak, now, held, dels>>

\* ---- observed files against the bounds
Obs(f) == [t \in {x.t : x \in SetOf(f.b)} |-> CHOOSE x \in SetOf(f.b) : x.t = t]
Seen(o, t) == IF t \in DOMAIN o THEN o[t].s ELSE 0
\* what the files of a running store show: what was flushed at least
WithinDur(ctr, f) == LET o == Obs(f) IN \A t \in DOMAIN ctr.b \cup DOMAIN o : At(ctr.b, t).dur <= Seen(o, t) /\ Seen(o, t) <= At(ctr.b, t).hi
\* what a query of a gauge, or the files of a store that was closed, show
Exactly(ctr, f) ==
  LET o == Obs(f)
  IN \A t \in DOMAIN ctr.b \cup DOMAIN o :
       LET x == At(ctr.b, t)
       IN /\ x.lo <= Seen(o, t) /\ Seen(o, t) <= x.hi
          /\ (f.k = "gauge" /\ ctr.k = "gauge" /\ x.lo = x.hi /\ x.hi > 0 /\ x.c > 0 =>
                o[t].c = x.c /\ o[t].q = x.q /\ o[t].mn = x.mn /\ o[t].mx = x.mx)
FilesOf(fs) == [n \in {x.n : x \in SetOf(fs)} |-> CHOOSE x \in SetOf(fs) : x.n = n]
KindOK(ctr, k) == ctr.k = k \/ (~ctr.sure)
DiskOK(T, fs, how) ==
  LET F == FilesOf(fs)
  IN /\ Sure(T) \subseteq DOMAIN F /\ DOMAIN F \subseteq Names(T)
     /\ Len(fs) = Cardinality(DOMAIN F)
     /\ \A n \in DOMAIN F : KindOK(T.C[n], F[n].k)
          /\ (IF how = "settle" THEN WithinDur(T.C[n], F[n]) ELSE Exactly(T.C[n], F[n]))
\* what is known after looking (how: at a running store, at one that was closed, at one that crashed)
Adopt(T, fs, gs, how) ==
  LET F == FilesOf(fs)
      one(n) ==
        LET c == T.C[n]
            g == how = "settle" /\ F[n].k = "gauge"
            o == IF g THEN (IF n \in DOMAIN gs THEN Obs(gs[n]) ELSE <<>>) ELSE Obs(F[n])
        IN [k |-> F[n].k, sure |-> TRUE,
            b |-> [t \in DOMAIN c.b \cup DOMAIN o |->
               IF how = "crashed" THEN [At(c.b, t) EXCEPT !.lo = Seen(o, t), !.dur = Seen(o, t)]
               ELSE IF how = "settle" /\ ~g THEN [At(c.b, t) EXCEPT !.lo = Max2(@, Seen(o, t))]
               ELSE IF t \in DOMAIN o
                    THEN [lo |-> o[t].s, hi |-> o[t].s, dur |-> IF how = "closed" THEN o[t].s ELSE At(c.b, t).dur,
                          c |-> o[t].c, q |-> o[t].q, mn |-> o[t].mn, mx |-> o[t].mx]
                    ELSE NoBucket]]
  IN [T EXCEPT !.C = [n \in DOMAIN F |-> one(n)], !.D = <<>>]
Kinds(T) == [n \in Names(T) |-> T.C[n].k]
NewBak(n) == {x \in SetOf(E.bak) : x.n = n}
BakCount(n) == IF n \in DOMAIN bak THEN bak[n] ELSE 0
BakOK ==
  /\ \A n \in {x.n : x \in SetOf(E.bak)} \cup DOMAIN bak :
       LET k == Cardinality(NewBak(n)) - BakCount(n)
       IN IF n \in DOMAIN S.D THEN S.D[n].lo <= k /\ k <= S.D[n].hi ELSE k = 0
  /\ \A n \in DOMAIN S.D :
       /\ Cardinality(NewBak(n)) - BakCount(n) >= S.D[n].lo
       /\ (S.D[n].hi = 1 /\ S.D[n].lo = 1 =>
             \E x \in NewBak(n) : IF S.D[n].ctr.k = "event" THEN WithinDur(S.D[n].ctr, x) ELSE Exactly(S.D[n].ctr, x))

ListIs(K, p, got) == SetOf(got) = Listing(K, p) /\ Len(got) = Cardinality(SetOf(got))
\* at rest
Settle(how) ==
  LET gs == LET G == {x \in SetOf(E.found) : x.ok /\ x.k = "gauge"} IN [n \in {Canon(x.n) : x \in G} |-> CHOOSE x \in G : Canon(x.n) = n]
      okDisk == DiskOK(S, E.disk, how)
      T == Adopt(S, E.disk, gs, how)
      there == {x.n : x \in SetOf(E.disk)}
      right(x) ==
        LET n == Canon(x.n)
        IN /\ x.ok = (n \in there)
           /\ (x.ok => x.k = T.C[n].k)
           /\ (x.ok /\ x.k = "gauge" /\ how # "crashed" => Exactly(S.C[n], x) /\ Exactly(T.C[n], x))
      wrong == {Canon(x.n) : x \in {y \in SetOf(E.found) : ~right(y)}}
      foundOK == wrong = {}
      bakOK == how = "crashed" \/ BakOK
      listOK == ListIs(Kinds(T), <<Star>>, E.list)
  IN IF ~okDisk THEN Check(FALSE, [what |-> "the counters and what they hold", missing |-> Sure(S) \ there, unknown |-> there \ Names(S),
            wrong |-> LET F == FilesOf(E.disk) IN
               {<<n, S.C[n]>> : n \in {m \in DOMAIN F \cap Names(S) : ~KindOK(S.C[m], F[m].k) \/ ~(IF how = "settle" THEN WithinDur(S.C[m], F[m]) ELSE Exactly(S.C[m], F[m]))}}], TRUE)
     ELSE Check(foundOK /\ E.extra = <<>> /\ listOK /\ bakOK /\ fl = <<>> /\ dels = {},
           [what |-> IF E.extra # <<>> THEN "no other files"
                     ELSE IF ~bakOK THEN "one backup for each deletion"
                     ELSE IF fl # <<>> \/ dels # {} THEN "each request answered"
                     ELSE IF ~listOK THEN "counters listed are those stored"
                     ELSE "counters found hold what was recorded", wrong |-> {<<n, IF n \in Names(S) THEN S.C[n] ELSE <<>>>> : n \in wrong}, store |-> S],
           /\ S' = T /\ bak' = [n \in {x.n : x \in SetOf(E.bak)} |-> Cardinality(NewBak(n))]
           /\ UNCHANGED <<fl, now, held, dels>>)

\* a listing while things happen
Quiet(T) == T.D = <<>> /\ Unsure(T) = {}
ListNow ==
  LET names == {x.n : x \in SetOf(E.got)}
      may == {n \in Closure(Names(S) \cup DOMAIN S.D) : Match(n, E.p)}
      must == {n \in Closure(Sure(S)) : Match(n, E.p)}
  IN Check(IF Quiet(S) THEN ListIs(Kinds(S), E.p, E.got)
           ELSE must \subseteq names /\ names \subseteq may /\ Len(E.got) = Cardinality(names),
           [must |-> must], UNCHANGED <<S, fl, bak, now, held, dels>>)

Forget(f, T) == [k \in DOMAIN f |-> [n \in DOMAIN f[k] \cap Names(T) |-> f[k][n]]]
DoDelete(T) ==
  /\ S' = T /\ fl' = Forget(fl, T) /\ held' = [n \in DOMAIN held |-> IF Canon(n) \in Names(S) \ Names(T) THEN "gone" ELSE held[n]]
  /\ dels' = dels \cup {E.id} /\ UNCHANGED <<bak, now>>

\* ---- several threads at once
RECURSIVE Recs(_, _)
Recs(T, rs) == IF rs = <<>> THEN T ELSE Recs(Record(T, rs[1].n, rs[1].t, rs[1].d), Tail(rs))
BurstList(T0, T1, gone, x) ==
  LET got == SetOf(x.got)
      before == (Sure(T0) \ gone)
      own == {m \in {Canon(n) : n \in SetOf(x.own)} : m # <<>>}
  IN /\ Closure(before) \cup Closure(own) \subseteq got
     /\ got \subseteq Closure(Names(T1) \cup DOMAIN T1.D)
     /\ Len(x.got) = Cardinality(got)
Low(T, n, t) == IF n \in DOMAIN T.C THEN At(T.C[n].b, AlignDown(t)).lo ELSE 0
Burst ==
  LET T1 == DeleteAll(Recs(S, E.recs), {Canon(n) : n \in SetOf(E.dels)})
      gone == {Canon(n) : n \in SetOf(E.dels)}
  IN Check(/\ \A k \in 1..Len(E.lists) : BurstList(S, T1, gone, E.lists[k])
           /\ E.answers = E.asked
           /\ \A k \in 1..Len(E.snaps) : LET x == E.snaps[k] IN Low(S, Canon(x.n), x.t) + x.own <= x.got,
           "listings name at least what existed before, each request answered once, a flush answered has written what its thread recorded before",
           /\ S' = (IF E.asked > Len(E.dels) THEN DoneFlush(AfterFlush(T1, now), now) ELSE T1)
           /\ held' = [n \in DOMAIN held |-> IF Canon(n) \in gone THEN "gone" ELSE held[n]]
           /\ UNCHANGED <<fl, bak, now, dels>>)

Step ==
  \/ E.e = "new" /\ Check(TRUE, <<>>, S' = NewStore(E.mode, E.agg) /\ fl' = <<>> /\ bak' = <<>> /\ held' = <<>> /\ dels' = {} /\ UNCHANGED now)
  \/ E.e = "now" /\ Check(TRUE, <<>>, now' = E.t /\ UNCHANGED <<S, fl, bak, held, dels>>)
  \/ E.e = "rec" /\ Check(TRUE, <<>>, S' = Record(S, E.n, E.t, E.d) /\ UNCHANGED <<fl, bak, now, held, dels>>)
  \/ E.e \in {"poll", "prune", "background"} /\ Check(TRUE, <<>>, UNCHANGED <<S, fl, bak, now, held, dels>>)
  \/ E.e = "flush" /\ Check(TRUE, <<>>, fl' = (E.id :> Promise(S)) @@ fl /\ S' = AfterFlush(S, now) /\ UNCHANGED <<bak, now, held, dels>>)
  \/ E.e = "flushed" /\ (IF E.id \notin DOMAIN fl THEN Check(FALSE, "one answer for each flush", TRUE)
       ELSE LET p == fl[E.id]  F == FilesOf(E.disk)
                ok == \A n \in DOMAIN p : \A t \in DOMAIN p[n] : p[n][t] > 0 => n \in DOMAIN F /\ p[n][t] <= Seen(Obs(F[n]), t)
            IN Check(ok, p, S' = DoneFlush(Kept(S, p, TRUE), now) /\ fl' = [k \in DOMAIN fl \ {E.id} |-> fl[k]] /\ UNCHANGED <<bak, now, held, dels>>))
  \/ E.e = "del" /\ Check(TRUE, <<>>, DoDelete(Delete(S, E.n)))
  \/ E.e = "delpat" /\ Check(TRUE, <<>>, DoDelete(DeletePattern(S, E.p)))
  \/ E.e = "deleted" /\ Check(E.id \in dels, "one answer for each deletion", dels' = dels \ {E.id} /\ UNCHANGED <<S, fl, bak, now, held>>)
  \/ E.e = "hold" /\ Check(E.ok = (Canon(E.n) \in Names(S) \/ Canon(E.n) \in DOMAIN S.D) \/ ~Quiet(S), "a counter that exists is found",
       held' = (IF E.ok THEN (E.n :> (IF Canon(E.n) \in Sure(S) THEN "live" ELSE IF Canon(E.n) \in Names(S) THEN "maybe" ELSE "gone")) @@ held ELSE [m \in DOMAIN held \ {E.n} |-> held[m]]) /\ UNCHANGED <<S, fl, bak, now, dels>>)
  \/ E.e = "use" /\ Check(TRUE, <<>>, S' = (IF E.n \in DOMAIN held THEN RecordHandle(S, Canon(E.n), held[E.n], E.t, E.d) ELSE S)
                                       /\ UNCHANGED <<fl, bak, now, held, dels>>)
  \/ E.e = "list" /\ ListNow
  \/ E.e \in {"settle", "closed", "crashed"} /\ Settle(E.e)
  \/ E.e = "restart" /\ Check(TRUE, <<>>, S' = Restart(S) /\ held' = <<>> /\ UNCHANGED <<fl, bak, now, dels>>)
  \/ E.e = "crash" /\ Check(TRUE, <<>>, S' = Crash(S) /\ held' = <<>> /\ fl' = <<>> /\ dels' = {} /\ UNCHANGED <<bak, now>>)
  \/ E.e = "burst" /\ Burst
  \/ E.e = "match" /\ Check(SetOf(E.got) = {s \in SetOf(E.strs) : Match(s, E.p)}, {s \in SetOf(E.strs) : Match(s, E.p)}, UNCHANGED <<S, fl, bak, now, held, dels>>)
  \/ E.e = "munge" /\ Check(E.out = Munge(E.n), Munge(E.n), UNCHANGED <<S, fl, bak, now, held, dels>>)
Next ==
  /\ bad = <<>> /\ l <= Len(Hist[h].ev)
  /\ \/ ("threw_" \in DOMAIN E \/ E.e = "died") /\ Check(FALSE, "the operation completes", TRUE)
     \/ "threw_" \notin DOMAIN E /\ E.e # "died" /\ Step
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>>
=============================================================================
