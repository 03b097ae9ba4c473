------------------------------ MODULE TrailFile ----------------------------
(* A trailing file: the last three intervals touched are kept aside; each is  *)
(* averaged with the value one season earlier when it is written out.         *)
(* Values are in parts (Unit) of one; the decay is in fourths.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Unit == 4096
None == <<>>
NewTrail(c) == [last |-> 0, ltime |-> 0, pend |-> <<None, None, None>>, slots |-> <<>>]
\* as the file is opened
Idx(c, t) == (t - c.create) \div c.iv
TimeOf(c, i) == c.create + i * c.iv
InFile(c, s, i) == i <= s.last /\ i > s.last - c.n
Slot(c, i) == i % c.n
At(s, k) == IF k \in DOMAIN s.slots THEN s.slots[k] ELSE None
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* samples of one interval
Join(a, b) == [t |-> a.t, s |-> a.s + b.s, q |-> a.q + b.q, mn |-> Min2(a.mn, b.mn), mx |-> Max2(a.mx, b.mx), c |-> a.c + b.c]
Mix(c, a, b) == (a * c.lam + b * (4 - c.lam)) \div 4
Blend(c, old, new) == [t |-> new.t, s |-> Mix(c, old.s, new.s), q |-> Mix(c, old.q, new.q), mn |-> Mix(c, old.mn, new.mn), mx |-> Mix(c, old.mx, new.mx),
                       c |-> Max2(1, (old.c * c.lam + new.c * (4 - c.lam) + 2) \div 4)]
\* ---- the oldest of the three goes to the file, unless a gap took it out of there
SeasonBefore(c, s, b) == LET o == Idx(c, b.t - c.season) v == At(s, Slot(c, o)) IN IF v # None /\ v.t > 0 /\ Idx(c, v.t) = o THEN v ELSE None
Written(c, s, b) ==
  IF b = None \/ ~InFile(c, s, Idx(c, b.t)) THEN s
  ELSE LET o == SeasonBefore(c, s, b) IN [s EXCEPT !.slots = (Slot(c, Idx(c, b.t)) :> (IF o = None \/ o.c = 0 THEN b ELSE Blend(c, o, b))) @@ @]
FlushOne(c, s) == [Written(c, s, s.pend[1]) EXCEPT !.pend = <<s.pend[2], s.pend[3], None>>]
FlushAll(c, s) == FlushOne(c, FlushOne(c, FlushOne(c, s)))
Has(s, t) == {j \in 1..3 : s.pend[j] # None /\ s.pend[j].t = t}
Fixed(c, b) == IF c.kind = "agg" THEN [b EXCEPT !.c = c.fixed] ELSE b
Update(c, s, d) ==
  LET i == Idx(c, d.t)
      t == d.t - (d.t % c.iv)
      a == IF i > s.last THEN [s EXCEPT !.last = i, !.ltime = t] ELSE s
      b == [d EXCEPT !.t = t]
  IN IF ~InFile(c, a, i) THEN [ok |-> FALSE, s |-> a]
     ELSE IF Has(a, t) # {} THEN LET j == CHOOSE k \in Has(a, t) : TRUE
                                 IN [ok |-> TRUE, s |-> [a EXCEPT !.pend[j] = IF c.kind = "collated" THEN b ELSE Fixed(c, Join(@, b))]]
     ELSE [ok |-> TRUE, s |-> [FlushOne(c, a) EXCEPT !.pend[3] = Fixed(c, b)]]
Close(c, s) == [FlushAll(c, s) EXCEPT !.pend = <<None, None, None>>]
=============================================================================
