------------------------------- MODULE GenTrail -----------------------------
(* Histories of a trailing file: samples in and out of order, gaps, seasons   *)
(* of any length, flushes, closing and crashes.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS DEPTH
VARIABLES c, t, ops
vars == <<c, t, ops>>
One(X) == {RandomElement(X)}
Ivs == {10, 10, 60}
Seasons(iv) == {iv, iv + iv \div 2, 10, 2 * iv, 3 * iv, 5 * iv, 50 * iv, 255 * iv, 256 * iv, 300 * iv, 509 * iv, 510 * iv, 511 * iv, 512 * iv - 1, 512 * iv, 512 * iv + 1, 513 * iv, 766 * iv, 768 * iv, 768 * iv + 5}
Init == \E iv \in Ivs, w \in {1, 100, 512, 513, 700}, kz \in 1..4, l \in 1..4, zero \in {1000000020, 999999960, 1000000000} : \E s \in Seasons(iv), k \in {<<"gauge", "gauge", "collated", "agg">>[kz]} :
  c = [iv |-> iv, season |-> IF s < 10 THEN 10 ELSE s, k |-> k, n |-> IF s > 512 * iv \/ w > 512 THEN 768 ELSE 512] /\ t = 1000000020
  /\ ops = <<[o |-> "topen", z |-> kz, zero |-> zero, iv |-> iv, want |-> w, kind |-> k, fixed |-> 7, season |-> IF s < 10 THEN 10 ELSE s, lam |-> l]>>
Emit(x) == ops' = Append(ops, x)
Steps == {0, 0, c.iv, c.iv, c.iv, 2 * c.iv, 3 * c.iv, -c.iv, -2 * c.iv, -3 * c.iv, -4 * c.iv, c.season, c.season, c.season - c.iv, c.season + c.iv, c.season - 2 * c.iv,
          c.n * c.iv, (c.n - 1) * c.iv, (c.n - 2) * c.iv, (c.n + 1) * c.iv, 2 * c.n * c.iv, 100 * c.iv, -100 * c.iv, -(c.n - 1) * c.iv, 3 * c.season}
Place(z) == RandomElement({j \in 1..4 : z # 0})
Step1(z) == LET p == Place(z) IN IF p <= 1 THEN c.iv ELSE IF p = 2 THEN RandomElement({c.season, c.season - c.iv, c.season + c.iv}) ELSE RandomElement({j \in Steps : z # 0})
Upd == \E d \in {Step1(Len(ops))}, v \in One({-40, 0, 1, 2, 4, 16, 100}), n \in One({1, 1, 2, 5}), off \in One({0, 0, 1, 9}) :
  LET u == t + d IN
  /\ u > 1000000 /\ u < 1900000000
  /\ Emit([o |-> "tupd", t |-> (u - (u % c.iv)) + (IF c.k = "collated" THEN 0 ELSE off), s |-> v * n, q |-> v * v * n, mn |-> v - (n - 1), mx |-> v + (n - 1), c |-> n]) /\ t' = (IF d < -50 * c.iv THEN t ELSE u) /\ UNCHANGED c
Flush == Emit([o |-> "tflush"]) /\ UNCHANGED <<c, t>>
Reopen == Emit([o |-> RandomElement({j \in {"reopen", "reopeninit"} : Len(ops) > 0})]) /\ UNCHANGED <<c, t>>
Step == \E k \in One(1..16) : IF k <= 13 THEN Upd ELSE IF k <= 15 THEN Flush ELSE Reopen
Ending(k) == IF k = 1 THEN Emit([o |-> "reopen"]) /\ UNCHANGED <<c, t>> ELSE Step
Done == PrintT("VPGEN " \o ToJson(ops)) /\ Emit([o |-> "end"]) /\ UNCHANGED <<c, t>>
Next == IF Len(ops) < DEPTH - 2 THEN Step ELSE IF Len(ops) < DEPTH THEN Ending(DEPTH - Len(ops)) ELSE Len(ops) = DEPTH /\ Done
Spec == Init /\ [][Next]_vars
=============================================================================
