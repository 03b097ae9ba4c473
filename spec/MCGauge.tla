------------------------------- MODULE MCGauge -------------------------------
(* Exhaustive check of gauge recording: at every resolution each interval of *)
(* the window holds exactly the accepted samples of that interval, in any    *)
(* order of arrival.                                                         *)
EXTENDS StatCounter
CONSTANTS TMAX, CMAX
VARIABLES g, acc, now, k     \* acc[j]: samples file j had room for
vars == <<g, acc, now, k>>
Pol == <<[iv |-> 2, n |-> 4], [iv |-> 4, n |-> 3]>>
Start == 20
Cf == GaugeCfgs(Pol, Start)
Init == g = NewGauge(Cf) /\ acc = <<{}, {}>> /\ now = Start /\ k = 0
Smp(t, v, c) == [t |-> t, s |-> v * c, q |-> v * v * c, mn |-> v, mx |-> v, c |-> c]
Bad(t) == {[Smp(t, 2, 1) EXCEPT !.c = 0], [Smp(t, 2, 1) EXCEPT !.mn = 3], [Smp(t, 2, 1) EXCEPT !.s = 5], [Smp(t, 2, 1) EXCEPT !.mx = 1]}
Room(j, t) == LET i == Idx(Cf[j], t) IN i > g[j].last - Cf[j].n
Rec == \E t \in (now - 9)..(now + 1) \cup {now + 61} : \E d \in {Smp(t, 1, 1), Smp(t, 3, 2)} \cup Bad(t) :
  /\ g' = GaugeRecord(Cf, g, d, now)
  /\ acc' = [j \in 1..2 |-> IF t <= now + 60 /\ d \in {Smp(t, 1, 1), Smp(t, 3, 2)} /\ Room(j, t)
                            THEN acc[j] \cup {[k |-> k, d |-> d]} ELSE acc[j]]
  /\ now' = now
Tick == \E x \in {1, 5} : now + x <= TMAX /\ now' = now + x /\ UNCHANGED <<g, acc>>
Next == k < CMAX /\ k' = k + 1 /\ (Rec \/ Tick)
Spec == Init /\ [][Next]_vars
Tot(S, f(_)) == FoldSet(LAMBDA x, a : a + f(x.d), 0, S)
Stored == \A j \in 1..2 : \A i \in (g[j].last - Cf[j].n + 1)..g[j].last :
  LET v == View(Cf[j], g[j], i)
      in == {x \in acc[j] : Idx(Cf[j], x.d.t) = i}
  IN IF in = {} THEN v = Empty
     ELSE /\ v.s = Tot(in, LAMBDA d : d.s) /\ v.c = Tot(in, LAMBDA d : d.c) /\ v.q = Tot(in, LAMBDA d : d.q)
          /\ v.mn = Min({x.d.mn : x \in in}) /\ v.mx = Max({x.d.mx : x \in in})
          /\ v.t = TimeOf(Cf[j], i)
=============================================================================
