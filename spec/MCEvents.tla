------------------------------ MODULE MCEvents ------------------------------
(* Exhaustive check of the collation window of event counters: every event  *)
(* accepted is in every file exactly once, whenever intervals shift out.    *)
EXTENDS StatCounter
CONSTANTS TMAX, CMAX, N
VARIABLES st, now, acc,  \* ghost: time of finest interval -> events accepted
          zero, k
vars == <<st, now, acc, zero, k>>
Pol == <<[iv |-> 2, n |-> N], [iv |-> 6, n |-> N]>>
Start == 40
Init == st = NewEvents(Pol, Start) /\ now = Start /\ acc = <<>> /\ zero = Start /\ k = 0
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Rec == \E t \in (now - 8)..(now + 3) :
  /\ st' = EventRecord(st, t, 1, now)
  /\ acc' = IF EventVerdict(st, t, now) = "ok" THEN (AlignDown(t, 2) :> (At(acc, AlignDown(t, 2)) + 1)) @@ acc ELSE acc
  /\ UNCHANGED now
Flush == st' = EventFlush(st, now) /\ UNCHANGED <<now, acc>>
Force == st' = EventForce(st, now) /\ UNCHANGED <<now, acc>>
Reopen == st' = EventClose(st) /\ UNCHANGED <<now, acc>>
Tick == \E d \in {1, 3, 9} : now + d <= TMAX /\ now' = now + d /\ UNCHANGED <<st, acc>>
Next == k < CMAX /\ k' = k + 1 /\ zero' = zero /\ (Rec \/ Flush \/ Force \/ Reopen \/ Tick)
Spec == Init /\ [][Next]_vars

SumOver(f, S) == FoldSet(LAMBDA x, a : a + At(f, x), 0, S)
PendSum(S) == FoldSet(LAMBDA t, a : a + Sum(st.pend[t]), 0, S)
Fine == st.files[1]
\* at every interval, each file has all events of the intervals that are no longer pending
Conserved ==
  /\ \A t \in DOMAIN acc : t \notin DOMAIN st.pend => Get(Fine, FIdx(Fine, t)) = acc[t]
  /\ \A t \in DOMAIN st.pend : st.pend[t].base + Sum(st.pend[t]) = acc[t]
  /\ \A i \in DOMAIN Fine.m : Get(Fine, i) <= At(acc, FTime(Fine, i))
  /\ \A j \in 2..Len(st.files) :
       LET f == st.files[j]
       IN \A i \in {FIdx(f, t) : t \in DOMAIN acc} \cup DOMAIN f.m :
            LET ts == {t \in DOMAIN acc : FIdx(f, t) = i}
            IN Get(f, i) + PendSum(ts \cap DOMAIN st.pend) = SumOver(acc, ts)
\* pending intervals lie in the window
InWindow == \A t \in DOMAIN st.pend : t >= st.w /\ t < st.w + W * 2
\* after a forced flush or a close nothing is pending
Settled == [][(Force \/ Reopen) => st'.pend = <<>>]_vars
\* a flush leaves only intervals that can still change
FlushedOld == [][Flush => \A t \in DOMAIN st'.pend : t > now - (W - W \div 2) * 2]_vars
Bounded == [][st.w # 0 /\ st'.w # 0 => st'.w >= st.w]_vars
=============================================================================
