---------------------------- MODULE StatCounter ----------------------------
(***************************************************************************)
(* One counter (daemon/StatCounter.cpp): a set of counter files, finest    *)
(* first, fed by samples (gauge) or events.                                *)
(*                                                                         *)
(* pol: sequence of [iv, n].  A gauge is a sequence of StatFile states.    *)
(*                                                                         *)
(* An event counter holds a window of W pending intervals of the finest    *)
(* length, starting at time w (0: none yet).  Events are added to their    *)
(* pending interval; intervals leave the window in order ("shift"), at     *)
(* which time they are added to the coarser files.  The finest file shows  *)
(* for a pending interval some prefix of its events, and all of them once  *)
(* the window has moved.                                                   *)
(*   ev    [w, pend, files]                                                *)
(*   pend  time -> [base, pre]: value in the finest file before, and the   *)
(*         running sums of the events accepted since                       *)
(*   files sequence of [iv, n, create, last, m], m: interval -> sum        *)
(***************************************************************************)
EXTENDS StatFile, SequencesExt, FiniteSetsExt
CONSTANT W

AlignDown(t, iv) == t - (t % iv)
AlignUp(t, iv)   == IF t % iv = 0 THEN t ELSE t - (t % iv) + iv

\* ------------------------------------------------------------------ gauge
GaugeCfg(p, zero) == [n |-> p.n, iv |-> p.iv, create |-> AlignDown(zero, p.iv), kind |-> "gauge", fixed |-> 0]
GaugeCfgs(pol, zero) == [k \in DOMAIN pol |-> GaugeCfg(pol[k], zero)]
NewGauge(cfgs) == [k \in DOMAIN cfgs |-> NewFile(cfgs[k])]

Abs(x) == IF x < 0 THEN -x ELSE x
GaugeVerdict(d, now) ==
  IF d.t > now + 60 THEN "future"
  ELSE IF d.c = 0 THEN "rejected"
  ELSE IF d.mx > 20000      \* (32-bit arithmetic here; nothing close to the tolerance is generated)
  THEN IF d.mn > d.mx \/ d.s < d.mn * d.c \/ d.s \div d.c > d.mx THEN "rejected" ELSE "ok"
  ELSE IF \/ d.mn * 10000 > d.mx * 10000 + Abs(d.mx)
          \/ d.s * 10000 + Abs(d.s) < d.mn * d.c * 10000
          \/ d.s * 10000 > d.c * (d.mx * 10000 + Abs(d.mx))
  THEN "rejected" ELSE "ok"

GaugeRecord(cfgs, files, d, now) ==
  IF GaugeVerdict(d, now) # "ok" THEN files
  ELSE [k \in DOMAIN files |-> Update(cfgs[k], files[k], d, "agg").st]

\* ----------------------------------------------------------------- events
NewEvents(pol, zero) ==
  [w |-> 0, pend |-> <<>>,
   files |-> [k \in DOMAIN pol |-> [iv |-> pol[k].iv, n |-> pol[k].n, create |-> AlignDown(zero, pol[k].iv), last |-> 0, m |-> <<>>]]]

FIdx(f, t)  == (t - f.create) \div f.iv
FTime(f, i) == f.create + i * f.iv
FHas(f, i)  == i > f.last - f.n
Get(f, i)   == IF i \in DOMAIN f.m THEN f.m[i] ELSE 0
Touch(f, i) == IF i > f.last THEN [f EXCEPT !.last = i] ELSE f
\* only what is in the window is kept
Trim(f)     == IF \A i \in DOMAIN f.m : FHas(f, i) THEN f
               ELSE [f EXCEPT !.m = [i \in {j \in DOMAIN f.m : FHas(f, j)} |-> f.m[i]]]
SetTo(f, i, v) == IF FHas(f, i) THEN LET g == Touch(f, i) IN [g EXCEPT !.m = (i :> v) @@ g.m] ELSE f
AddTo(f, i, v) == IF FHas(f, i) THEN LET g == Touch(f, i) IN [g EXCEPT !.m = (i :> (Get(g, i) + v)) @@ g.m] ELSE f

Iv(st) == st.files[1].iv
Sum(p) == p.pre[Len(p.pre)]
SortedTimes(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

\* move the window until its last interval ends after T
ShiftCount(st, T) == LET top == st.w + W * Iv(st)     \* end of the window
                     IN IF st.w = 0 \/ T < top THEN 0 ELSE (T - top) \div Iv(st) + 1
ShiftTo(st, T) ==
  LET iv == Iv(st)
      k  == ShiftCount(st, T)
      w2 == st.w + k * iv
      ts == SortedTimes(DOMAIN st.pend)
      out == SelectSeq(ts, LAMBDA t : t < w2)
      fine == LET g == FoldLeft(LAMBDA f, t : SetTo(f, FIdx(f, t), st.pend[t].base + Sum(st.pend[t])), st.files[1], ts)
              IN Trim(Touch(g, FIdx(g, w2 - iv + (W - 1) * iv)))
      coarse(f) == LET g == FoldLeft(LAMBDA x, t : AddTo(x, FIdx(x, t), Sum(st.pend[t])), f, out)
                   IN Trim(Touch(g, FIdx(g, w2 - iv)))
  IN IF k = 0 THEN st
     ELSE [w |-> w2, pend |-> [t \in {x \in DOMAIN st.pend : x >= w2} |-> st.pend[t]],
           files |-> [j \in DOMAIN st.files |-> IF j = 1 THEN fine ELSE coarse(st.files[j])]]

EventVerdict(st, t, now) ==
  IF t > now + Iv(st) THEN "future" ELSE IF t < st.w THEN "past" ELSE "ok"

\* v is the amount per second
EventRecord(st, t, v, now) ==
  IF EventVerdict(st, t, now) # "ok" THEN st
  ELSE LET iv == Iv(st)
           a  == AlignDown(t, iv)
           s1 == IF st.w = 0 THEN [st EXCEPT !.w = a - (W - 1) * iv] ELSE ShiftTo(st, a)
           f  == s1.files[1]
           i  == FIdx(f, a)
           old == IF a \in DOMAIN s1.pend THEN s1.pend[a]
                  ELSE [base |-> IF FHas(f, i) THEN Get(f, i) ELSE 0, pre |-> <<>>]
           new == [old EXCEPT !.pre = Append(@, v + IF Len(@) = 0 THEN 0 ELSE @[Len(@)])]
       IN [s1 EXCEPT !.pend = (a :> new) @@ @,
                     !.files[1] = IF FHas(f, i) THEN Touch(f, i) ELSE f]

EventFlush(st, now) == ShiftTo(st, now + Iv(st) * (W \div 2))
EventForce(st, now) == EventFlush(IF st.w = 0 THEN st ELSE ShiftTo(st, st.w + (W - 1) * Iv(st) + W * Iv(st)), now)
EventClose(st) == LET s == IF st.w = 0 THEN st ELSE ShiftTo(st, st.w + (W - 1) * Iv(st) + W * Iv(st))
                  IN [s EXCEPT !.w = 0, !.pend = <<>>]

\* what the finest file may show for an interval
Possible(st, i) ==
  LET f == st.files[1]
      t == FTime(f, i)
  IN IF t \in DOMAIN st.pend
     THEN {Get(f, i)} \cup {st.pend[t].base + x : x \in Range(st.pend[t].pre)}
     ELSE {Get(f, i)}

\* ------------------------------------------------------------------ query
Reductions == <<10, 20, 30, 60, 120, 300, 600, 900, 1200, 1800, 3600, 7200, 10800, 14400, 21600, 28800, 43200, 86400>>

\* (start, end, interval of the file, maximum) -> normalized
Align(s, e, iv) == [s |-> AlignDown(s, iv), e |-> AlignUp(e, iv), iv |-> iv]
Normalize(s, e, iv0, max) ==
  IF max = 1 /\ e > s
  THEN LET a == Align(s, e, e - s) IN [a EXCEPT !.iv = a.e - a.s]
  ELSE LET iv == IF iv0 = 0 THEN 10 ELSE iv0
           a  == Align(s, e, iv)
       IN IF max = 0 \/ (a.e - a.s) \div iv <= max THEN a
          ELSE LET cand == SelectSeq(Reductions, LAMBDA r : r > iv /\ r % iv = 0)
                   fits == SelectSeq(cand, LAMBDA r : (a.e - a.s) \div r <= max)
                   odd  == (a.e - a.s) \div max
               IN IF Len(cand) > 0 THEN Align(a.s, a.e, IF Len(fits) > 0 THEN fits[1] ELSE cand[Len(cand)])
                  ELSE IF odd < 2 * iv THEN a ELSE Align(a.s, a.e, odd)

Defaults(s, e, now) == IF s = 0 /\ e = 0 THEN <<now - 900, now>>
                       ELSE IF e = 0 THEN <<s, s + 900>>
                       ELSE IF s = 0 THEN <<e - 900, e>> ELSE <<s, e>>

NumBetween(s, e, iv) == LET d == (AlignDown(e, iv) - AlignDown(s, iv)) \div iv IN IF d = 0 THEN 1 ELSE d

MergeAll(bs, t) == [FoldLeft(Merge, Head(bs), Tail(bs)) EXCEPT !.t = t]
\* buckets (in time order, starting at or after s) combined per interval of length iv
Reduce(bs, s, iv) ==
  LET ks == SetToSortSeq({(b.t - s) \div iv : b \in Range(bs)}, LAMBDA x, y : x < y)
  IN [k \in 1..Len(ks) |-> MergeAll(SelectSeq(bs, LAMBDA b : (b.t - s) \div iv = ks[k]), s + ks[k] * iv)]

\* the intervals read for a normalized range: first and number
ReadSpan(last, n, create, iv, s, e, kind, now) ==
  LET c == [n |-> n, iv |-> iv, create |-> create, kind |-> kind, fixed |-> 0]
      st == [last |-> last]
      from == (s - create) \div iv
  IN [lo |-> ReadFrom(c, st, from), n |-> ReadN(c, st, from, NumBetween(s, e, iv), now)]

GaugeSelect(cfgs, files, s0, e0, max, now) ==
  LET se == Defaults(s0, e0, now)
      s == se[1]  e == se[2]
      fit == SelectSeq([k \in DOMAIN cfgs |-> k], LAMBDA k : InFile(cfgs[k], files[k], Idx(cfgs[k], s), now))
      k == IF Len(fit) > 0 THEN fit[1] ELSE 0
      iv == IF k > 0 THEN cfgs[k].iv
            ELSE IF s > files[1].ltime THEN cfgs[1].iv ELSE cfgs[Len(cfgs)].iv
      nr == Normalize(s, e, iv, max)
      sp == ReadSpan(files[k].last, cfgs[k].n, cfgs[k].create, cfgs[k].iv, nr.s, nr.e, "gauge", now)
      all == [j \in 1..sp.n |-> View(cfgs[k], files[k], sp.lo + j - 1)]
      live == SelectSeq(all, LAMBDA b : b # Empty /\ b.t >= nr.s /\ b.t <= nr.e)
  IN IF e < s THEN [refused |-> TRUE]
     ELSE [refused |-> FALSE, s |-> nr.s, e |-> nr.e, iv |-> nr.iv,
           b |-> IF k = 0 THEN <<>> ELSE IF cfgs[k].iv < nr.iv THEN Reduce(live, nr.s, nr.iv) ELSE live]

\* For event counters: all intervals of the range that the file covers, idle ones as zero.
\* sums only: [t, s]
EFKind(k) == IF k = 1 THEN "collated" ELSE "agg"
EventSelect(st, s0, e0, max, now) ==
  LET se == Defaults(s0, e0, now)
      s == se[1]  e == se[2]
      fs == st.files
      CfgOf(k) == [n |-> fs[k].n, iv |-> fs[k].iv, create |-> fs[k].create, kind |-> EFKind(k), fixed |-> 0]
      fit == SelectSeq([k \in DOMAIN fs |-> k], LAMBDA k : InFile(CfgOf(k), [last |-> fs[k].last], FIdx(fs[k], s), now))
      k == IF Len(fit) > 0 THEN fit[1] ELSE 0
      f == fs[k]
      iv == IF k > 0 THEN f.iv
            ELSE IF s > (IF fs[1].last = 0 THEN 0 ELSE FTime(fs[1], fs[1].last)) THEN fs[1].iv ELSE fs[Len(fs)].iv
      nr == Normalize(s, e, iv, max)
      sp == ReadSpan(f.last, f.n, f.create, f.iv, nr.s, nr.e, EFKind(k), now)
      all == [j \in 1..sp.n |-> LET i == sp.lo + j - 1
                                IN [t |-> FTime(f, i), s |-> IF i <= f.last THEN Get(f, i) ELSE 0]]
      in == SelectSeq(all, LAMBDA b : b.t >= nr.s /\ b.t < nr.e)
      ks == SetToSortSeq({(b.t - nr.s) \div nr.iv : b \in Range(in)}, LAMBDA x, y : x < y)
      red == [j \in 1..Len(ks) |->
                [t |-> nr.s + ks[j] * nr.iv,
                 s |-> FoldLeft(LAMBDA x, b : x + b.s, 0, SelectSeq(in, LAMBDA b : (b.t - nr.s) \div nr.iv = ks[j]))]]
  IN IF e < s THEN [refused |-> TRUE]
     ELSE [refused |-> FALSE, s |-> nr.s, e |-> nr.e, iv |-> nr.iv,
           aligned |-> k > 0 /\ nr.s % f.iv = 0 /\ nr.e % f.iv = 0,
           b |-> IF k = 0 THEN <<>> ELSE IF f.iv < nr.iv THEN red ELSE in]
=============================================================================
