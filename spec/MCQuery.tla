------------------------------- MODULE MCQuery -------------------------------
(* Exhaustive check of range normalization and reduction: every range, file *)
(* interval and maximum within the bounds.                                   *)
EXTENDS StatCounter
CONSTANTS SMAX, LMAX, BMAX
VARIABLES s, e, iv, max, bs, done
vars == <<s, e, iv, max, bs, done>>
Ivs == {1, 5, 7, 10, 60, 300}
Maxs == {0, 1, 2, 3, 5, 10, 50}
B(t, v) == [t |-> t, s |-> v, q |-> v * v, mn |-> v, mx |-> v, c |-> 1]
Init == /\ s \in 1..SMAX /\ iv \in Ivs /\ max \in Maxs
        /\ e \in {s + x : x \in {0, 1, iv - 1, iv, 2 * iv, 3 * iv + 1, 11 * iv, 61 * iv, 400 * iv, 3001 * iv}}
        /\ bs = <<>> /\ done = FALSE
N == Normalize(s, e, iv, max)
\* any subset of up to BMAX stored buckets of the range, in time order
Fill == /\ ~done /\ Len(bs) < BMAX
        /\ LET from == IF bs = <<>> THEN N.s ELSE bs[Len(bs)].t + iv
           IN \E d \in 0..LMAX : LET t == AlignUp(from, iv) + d * iv
                                 IN t < N.e /\ bs' = Append(bs, B(t, Len(bs) + 1)) /\ UNCHANGED <<s, e, iv, max, done>>
Spec == Init /\ [][Fill]_vars
Covers == N.s <= s /\ N.e >= e /\ N.iv > 0
AlignedOK == /\ N.s % N.iv = 0 \/ max = 1
             /\ (N.e - N.s) % N.iv = 0
             /\ (max # 1 => N.iv % iv = 0 \/ Len(SelectSeq(Reductions, LAMBDA r : r > iv /\ r % iv = 0)) = 0)
Limited == max > 1 => LET cand == SelectSeq(Reductions, LAMBDA r : r > iv /\ r % iv = 0)
                      IN \/ (N.e - N.s) \div N.iv <= max + 2
                         \/ N.iv = IF Len(cand) = 0 THEN iv ELSE cand[Len(cand)]
SumOf(b) == FoldLeft(LAMBDA a, x : a + x.s, 0, b)
CountOf(b) == FoldLeft(LAMBDA a, x : a + x.c, 0, b)
Lossless == bs # <<>> => LET r == Reduce(bs, N.s, N.iv)
            IN /\ SumOf(r) = SumOf(bs) /\ CountOf(r) = CountOf(bs)
               /\ \A j \in 1..Len(r) : (r[j].t - N.s) % N.iv = 0 /\ r[j].t >= N.s /\ r[j].t < N.e
               /\ \A j \in 1..(Len(r) - 1) : r[j].t < r[j + 1].t
               /\ \A j \in 1..Len(r) : LET in == SelectSeq(bs, LAMBDA b : b.t >= r[j].t /\ b.t < r[j].t + N.iv)
                                       IN r[j].s = SumOf(in) /\ r[j].c = Len(in)
=============================================================================
