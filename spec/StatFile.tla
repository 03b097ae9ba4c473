------------------------------ MODULE StatFile ------------------------------
(***************************************************************************)
(* One counter file (lib/StatFile.cpp): a ring of cfg.n time buckets of    *)
(* cfg.iv seconds behind a header.  The file is an unbounded map from      *)
(* interval index to bucket, seen through a window of cfg.n intervals that *)
(* ends at the newest interval written.                                    *)
(*                                                                         *)
(* Everything is a pure operator (cfg, state, operation) -> (state, reply) *)
(* so that the same definitions are model checked (MCStatFile), drive the  *)
(* generator (GenStatFile) and judge recorded executions (TraceStatFile).  *)
(*                                                                         *)
(* cfg   : [n, iv, create, kind, fixed]                                    *)
(*         kind "gauge"    merge updates                                   *)
(*              "collated" an update replaces the bucket                   *)
(*              "agg"      merge, then force the count to cfg.fixed        *)
(* bucket: [t, s, q, mn, mx, c]  time, sum, sum of squares, min, max, count*)
(* state : [last, ltime, first, slots, cs, cq, cc, ct]                     *)
(*         slots is sparse: a slot never written is not in its domain      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [t |-> 0, s |-> 0, q |-> 0, mn |-> 0, mx |-> 0, c |-> 0]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* \div and % are the flooring ones, so a time before `create` falls in a
\* negative interval of its own.
Idx(cfg, t)    == (t - cfg.create) \div cfg.iv
TimeOf(cfg, i) == cfg.create + i * cfg.iv
Slot(cfg, i)   == i % cfg.n

NewFile(cfg) ==
  [last |-> 0, ltime |-> 0, first |-> 0, slots |-> <<>>,
   cs |-> 0, cq |-> 0, cc |-> 0, ct |-> cfg.create]

\* The interval lies in the window [last-n+1, last]; an event counter file is
\* also considered to reach up to the present (it is idle, not unknown).
InFile(cfg, st, i, now) ==
  /\ i > st.last - cfg.n
  /\ \/ i <= st.last
     \/ cfg.kind = "collated" /\ TimeOf(cfg, i) < now

Merge(b, d) ==
  IF b.c = 0 THEN d
  ELSE [t |-> b.t, s |-> b.s + d.s, q |-> b.q + d.q,
        mn |-> Min2(b.mn, d.mn), mx |-> Max2(b.mx, d.mx), c |-> b.c + d.c]

\* what the file shows for interval i: a slot holding another time is no data
View(cfg, st, i) ==
  IF Slot(cfg, i) \in DOMAIN st.slots /\ st.slots[Slot(cfg, i)].t = TimeOf(cfg, i)
  THEN st.slots[Slot(cfg, i)] ELSE Empty

\* ------------------------------------------------------------------ update
Combine(cfg, cur, d, mode) ==
  IF mode = "onlyempty" THEN IF cur.c = 0 THEN d ELSE cur
  ELSE IF cfg.kind = "collated" \/ mode = "overwrite" \/ (mode = "fill" /\ cur.c = 0) THEN d
  ELSE LET m == Merge(cur, [d EXCEPT !.t = TimeOf(cfg, Idx(cfg, d.t))])
       IN IF cfg.kind = "agg" THEN [m EXCEPT !.c = cfg.fixed] ELSE m

Update(cfg, st, d, mode) ==
  LET i   == Idx(cfg, d.t)
      adv == i > st.last
      s1  == IF adv THEN [st EXCEPT !.last = i, !.ltime = TimeOf(cfg, i),
                            !.first = IF st.first + cfg.n <= i THEN i - cfg.n + 1 ELSE st.first]
             ELSE st
  IN IF i <= s1.last - cfg.n
     THEN [st |-> st, ok |-> FALSE]
     ELSE LET cur  == View(cfg, s1, i)
              keep == mode = "onlyempty" /\ cur.c # 0
              new  == Combine(cfg, cur, d, mode)
              s2   == [s1 EXCEPT !.first = Min2(@, i),
                                 !.slots = (Slot(cfg, i) :> new) @@ @]
          IN [st |-> IF keep THEN s2
                     ELSE [s2 EXCEPT !.cs = @ + d.s, !.cq = @ + d.q, !.cc = @ + d.c],
              ok |-> TRUE]

\* -------------------------------------------------------------------- read
\* Reading cnt intervals from interval `from`: intervals older than the window
\* are skipped, at most the whole ring is returned.  The reply is the number of
\* buckets and, for each offset whose bucket really is of that interval, the
\* bucket (whatever else lies in a slot is not data, its time says so).
ReadFrom(cfg, st, from) == Max2(from, st.last - cfg.n + 1)
ReadN(cfg, st, from, cnt, now) ==
  LET lo == ReadFrom(cfg, st, from)
      k  == cnt - (lo - from)
  IN IF k <= 0 \/ ~InFile(cfg, st, lo, now) THEN 0 ELSE Min2(k, cfg.n)
Read(cfg, st, from, cnt, now) ==
  LET lo == ReadFrom(cfg, st, from)
      n  == ReadN(cfg, st, from, cnt, now)
  IN [n |-> n,
      b |-> {<<lo + k, View(cfg, st, lo + k)>> : k \in {j \in 0..(n - 1) : View(cfg, st, lo + j) # Empty}}]

ResetCumulative(st, t) == [st EXCEPT !.cs = 0, !.cq = 0, !.cc = 0, !.ct = t]

Header(st) == [last |-> st.last, ltime |-> st.ltime, first |-> st.first,
               cs |-> st.cs, cq |-> st.cq, cc |-> st.cc, ct |-> st.ct]
=============================================================================
