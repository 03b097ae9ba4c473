------------------------------- MODULE GenLoop ------------------------------
(* Histories of a process's statistics about itself.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS DEPTH
VARIABLES up, left, hs, nx, ops
vars == <<up, left, hs, nx, ops>>
One(X) == {RandomElement(X)}
\* hs: what each handle is
Init == up = FALSE /\ left = 0 /\ hs = <<>> /\ nx = 1 /\ ops = <<[o |-> "new"]>>
Emit(x) == ops' = Append(ops, x)
Aggs == {i \in DOMAIN hs : hs[i] # "gauge"}
Setup == Emit([o |-> "setup"]) /\ up' = TRUE /\ left' = 500 /\ UNCHANGED <<hs, nx>>
Mk == \E k \in One({"event", "event", "counted", "gauge"}), r \in One(1..4) :
  \E n \in {IF k = "event" /\ r = 1 THEN "same" ELSE "n" \o ToString(nx)} :
    Emit([o |-> "mk", id |-> nx, k |-> k, n |-> n]) /\ hs' = (nx :> k) @@ hs /\ nx' = nx + 1 /\ UNCHANGED <<up, left>>
Val == \E i \in One(DOMAIN hs), v \in One({-70000, -2, -1, 0, 1, 1, 2, 3, 17, 5000, 1000000}), w \in One(1..3) :
  Emit([o |-> IF hs[i] = "gauge" \/ w = 1 THEN "val" ELSE "add", id |-> i, v |-> v]) /\ UNCHANGED <<up, left, hs, nx>>
Copy == \E i \in One(DOMAIN hs), j \in One(DOMAIN hs \cup {nx}) :
  /\ i # j /\ Emit([o |-> IF j = nx THEN "copy" ELSE RandomElement({"copy", "assign"}), id |-> i, to |-> j])
  /\ hs' = (j :> hs[i]) @@ hs /\ nx' = (IF j = nx THEN nx + 1 ELSE nx) /\ UNCHANGED <<up, left>>
Del == \E i \in One(DOMAIN hs) : Emit([o |-> "del", id |-> i]) /\ hs' = [k \in DOMAIN hs \ {i} |-> hs[k]] /\ UNCHANGED <<up, left, nx>>
Agg == Aggs # {} /\ \E i \in One(Aggs) : Emit([o |-> "agg", id |-> i]) /\ UNCHANGED <<up, left, hs, nx>>
Sample == Emit([o |-> "sample"]) /\ UNCHANGED <<up, left, hs, nx>>
Tick == \E by \in One({d \in {1, 100, 250, left - 1, left} : d > 0 /\ d <= left}) : Emit([o |-> "tick", by |-> by]) /\ left' = (IF by = left THEN 500 ELSE left - by) /\ UNCHANGED <<up, hs, nx>>
Req == \E c \in One({0, 200, 200, 204, 302, 399, 400, 404, 500}) : Emit([o |-> "req", code |-> c]) /\ UNCHANGED <<up, left, hs, nx>>
Stats == \E n \in One(0..3) : Emit(IF n < 2 THEN [o |-> "stats"] ELSE [o |-> "held", n |-> n]) /\ UNCHANGED <<up, left, hs, nx>>
Burst == Aggs # {} /\ \E ns \in One({0, 1, 2, 3}), na \in One(1..4) :
  Emit([o |-> "burst", ns |-> ns, adds |-> [k \in 1..na |-> <<RandomElement({i \in Aggs : k > 0}), RandomElement({j \in {1, 50, 500} : k > 0}), RandomElement({j \in {-1, 1, 1, 3} : k > 0})>>]]) /\ UNCHANGED <<up, left, hs, nx>>
Step == \E k \in One(1..24) :
  IF DOMAIN hs = {} \/ k <= 3 THEN Mk
  ELSE IF k <= 10 THEN Val
  ELSE IF k <= 12 THEN (IF Aggs # {} /\ Cardinality(DOMAIN hs) > 1 THEN (Copy \/ Agg) ELSE Val)
  ELSE IF k = 13 THEN (IF Cardinality(DOMAIN hs) > 2 THEN Del ELSE Val)
  ELSE IF ~up THEN (IF k <= 16 THEN Setup ELSE IF k <= 18 THEN Sample ELSE Val)
  ELSE IF k <= 15 THEN Sample
  ELSE IF k <= 18 THEN Tick
  ELSE IF k <= 20 THEN Req
  ELSE IF k = 21 THEN Stats
  ELSE IF k <= 23 /\ Aggs # {} THEN Burst ELSE Val
Ending(k) == IF ~up THEN Setup ELSE IF k = 1 THEN Stats ELSE Sample
Done == PrintT("VPGEN " \o ToJson(ops)) /\ Emit([o |-> "end"]) /\ UNCHANGED <<up, left, hs, nx>>
Next == IF Len(ops) < DEPTH - 3 THEN Step ELSE IF Len(ops) < DEPTH THEN Ending(DEPTH - Len(ops)) ELSE Len(ops) = DEPTH /\ Done
Spec == Init /\ [][Next]_vars
=============================================================================
