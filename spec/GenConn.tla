------------------------------- MODULE GenConn ------------------------------
(* Histories of a connection: lines written while the peer listens, is away, *)
(* does not read, or ends the connection.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS DEPTH, PROFILE
VARIABLES id, up, st, lst, ops
vars == <<id, up, st, lst, ops>>
One(X) == {RandomElement(X)}
Lens(z) == IF PROFILE = "big" THEN RandomElement({20, 3000, 20000, 45000, 60000}) ELSE RandomElement({14, 20, 33, 60, 150})
Limits == IF PROFILE = "big" THEN {100000, 524288} ELSE {120, 400, 1000, 524288}
Init == \E m \in Limits, l \in 0..2 :
  id = 1 /\ lst = (l > 0) /\ up = (l > 0) /\ st = FALSE
  /\ ops = <<[o |-> "new", max |-> m, l |-> IF l > 0 THEN 1 ELSE 0, z |-> l, rb |-> IF PROFILE = "big" THEN 4096 ELSE 0]>>
Emit(x) == ops' = Append(ops, x)
Call(a, n) == [k \in 1..n |-> [id |-> a + k - 1, len |-> Lens(k)]]
Write == \E n1 \in One({0, 1, 1, 2, 5}), n2 \in One({0, 0, 1, 3}), n3 \in One({0, 0, 1, 8}) :
  \E c1 \in {Call(id, n1)}, c2 \in {Call(id + n1, n2)}, c3 \in {Call(id + n1 + n2, n3)} :
    /\ Emit([o |-> "write", calls |-> SelectSeq(<<c1, c2, c3>>, LAMBDA c : c # <<>>)]) /\ id' = id + n1 + n2 + n3 /\ UNCHANGED <<up, st, lst>>
Listen == Emit([o |-> "listen"]) /\ lst' = TRUE /\ UNCHANGED <<id, up, st>>
Unlisten == Emit([o |-> "unlisten"]) /\ lst' = FALSE /\ UNCHANGED <<id, up, st>>
Drop == \E k \in One({"drop", "rst", "down"}) : Emit([o |-> k]) /\ up' = FALSE /\ st' = FALSE /\ lst' = (IF k = "down" THEN FALSE ELSE lst) /\ UNCHANGED id
Wait == Emit([o |-> "wait"]) /\ up' = (up \/ lst) /\ UNCHANGED <<id, st, lst>>
Stall == Emit([o |-> "stall"]) /\ st' = TRUE /\ UNCHANGED <<id, up, lst>>
Unstall == Emit([o |-> "unstall"]) /\ st' = FALSE /\ UNCHANGED <<id, up, lst>>
Burst == \E nt \in One({1, 2, 3}), d \in One({0, 0, 1}), nw \in One({2, 3}), n \in One({10, 30, 60}), len \in One({20, 60, 400}) :
  Emit([o |-> "burst", nt |-> nt, drops |-> d, ws |-> [k \in 1..nw |-> <<1000000 + id * 1000 + k * 100, n, len>>]]) /\ id' = id + 1 /\ up' = TRUE /\ UNCHANGED <<st, lst>>
Step == \E k \in One(1..20) :
  IF k <= 9 THEN Write
  ELSE IF k <= 11 THEN (IF lst THEN (IF up THEN Drop ELSE Wait) ELSE Listen)
  ELSE IF k <= 14 THEN (IF up THEN Drop ELSE Wait)
  ELSE IF k = 15 THEN (IF lst THEN Unlisten ELSE Listen)
  ELSE IF k <= 17 THEN (IF st THEN Unstall ELSE IF PROFILE = "big" THEN Stall ELSE Write)
  ELSE IF k = 18 THEN (IF PROFILE = "small" /\ up /\ lst /\ id < 900 THEN Burst ELSE Write)
  ELSE Wait
Ending(k) == IF st THEN Unstall ELSE IF ~lst THEN Listen ELSE IF ~up \/ k = 1 THEN Wait ELSE Write
Done == PrintT("VPGEN " \o ToJson(ops)) /\ Emit([o |-> "end"]) /\ UNCHANGED <<id, up, st, lst>>
Next == IF Len(ops) < DEPTH - 4 THEN Step ELSE IF Len(ops) < DEPTH THEN Ending(DEPTH - Len(ops)) ELSE Len(ops) = DEPTH /\ Done
Spec == Init /\ [][Next]_vars
=============================================================================
