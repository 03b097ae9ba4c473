------------------------------- MODULE GenSplit -----------------------------
(* Histories of a splitter: sessions, all ends sending at the same time, ends *)
(* that stop reading, end, or are not there.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS DEPTH
VARIABLES nt, ss, st, deaf, nx, ops
vars == <<nt, ss, st, deaf, nx, ops>>
One(X) == {RandomElement(X)}
\* ss: open sessions; st: who of them does not read
Init == \E z \in 1..5 : \E n \in {<<1, 2, 2, 3, 4>>[z]} : nt = n /\ ss = {} /\ st = <<>> /\ deaf = {} /\ nx = 1 /\ ops = <<[o |-> "new", nt |-> n, z |-> z]>>
Emit(x) == ops' = Append(ops, x)
Lens(z) == RandomElement({j \in {1, 2, 50, 1000, 32767, 32768, 32769, 100000, 300000} : z > 0})
Open == Emit([o |-> "open", id |-> nx]) /\ ss' = (IF deaf = {} THEN ss \cup {nx} ELSE ss) /\ nx' = nx + 1 /\ UNCHANGED <<nt, st, deaf>>
Free == {s \in ss : s \notin DOMAIN st}
Send == \E n \in One(1..6) : Emit([o |-> "send", x |-> [j \in 1..n |-> <<RandomElement({s \in ss : j > 0}), RandomElement({k \in 0..nt : j > 0}), Lens(j)>>]]) /\ UNCHANGED <<nt, ss, st, deaf, nx>>
\* only one of the targets that is not the first one speaks
Other == nt > 1 /\ \E s \in One(ss), k \in One(2..nt) : Emit([o |-> "send", x |-> <<<<s, k, Lens(s)>>>>]) /\ UNCHANGED <<nt, ss, st, deaf, nx>>
Stall == Free # {} /\ \E s \in One(Free), k \in One(1..nt) : Emit([o |-> "stall", id |-> s, k |-> k]) /\ st' = (s :> k) @@ st /\ UNCHANGED <<nt, ss, deaf, nx>>
Flood == st # <<>> /\ \E s \in One(DOMAIN st), n \in One({1000, 8000000}) : Emit([o |-> "send", x |-> <<<<s, 0, n>>>>]) /\ UNCHANGED <<nt, ss, st, deaf, nx>>
Unstall == st # <<>> /\ \E s \in One(DOMAIN st) : Emit([o |-> "unstall", id |-> s, k |-> st[s]]) /\ st' = [i \in DOMAIN st \ {s} |-> st[i]] /\ UNCHANGED <<nt, ss, deaf, nx>>
Close == Free # {} /\ \E s \in One(Free), k \in One({0, 0, 1, nt, RandomElement(0..nt)}), n \in One({0, 0, 1, 1000, 32768, 100000}) :
  Emit([o |-> "close", id |-> s, k |-> k, n |-> n]) /\ ss' = ss \ {s} /\ UNCHANGED <<nt, st, deaf, nx>>
Deaf == \E k \in One(1..nt) : Emit([o |-> IF k \in deaf THEN "hear" ELSE "deaf", k |-> k]) /\ deaf' = (IF k \in deaf THEN deaf \ {k} ELSE deaf \cup {k}) /\ UNCHANGED <<nt, ss, st, nx>>
Hear == \E k \in One(deaf) : Emit([o |-> "hear", k |-> k]) /\ deaf' = deaf \ {k} /\ UNCHANGED <<nt, ss, st, nx>>
Step == \E k \in One(1..20) :
  IF ss = {} /\ deaf # {} THEN (IF k <= 14 THEN Hear ELSE Open)
  ELSE IF ss = {} THEN Open
  ELSE IF k <= 8 THEN Send
  ELSE IF k <= 10 THEN (IF nt > 1 THEN Other ELSE Send)
  ELSE IF k <= 12 THEN (IF deaf # {} THEN Hear ELSE Open)
  ELSE IF k <= 15 THEN (IF Free # {} THEN Close ELSE Unstall)
  ELSE IF k = 16 THEN (IF Cardinality(ss) < 3 THEN Deaf ELSE Send)
  ELSE IF st # <<>> THEN (IF k <= 18 THEN Flood ELSE Unstall)
  ELSE IF k = 17 THEN Stall ELSE Send
Ending(k) == IF st # <<>> THEN Unstall ELSE IF ss # {} THEN Close ELSE IF deaf # {} THEN Hear ELSE Open
Done == PrintT("VPGEN " \o ToJson(ops)) /\ Emit([o |-> "end"]) /\ UNCHANGED <<nt, ss, st, deaf, nx>>
Next == IF Len(ops) < DEPTH - 3 THEN Step ELSE IF Len(ops) < DEPTH THEN Ending(DEPTH - Len(ops)) ELSE Len(ops) = DEPTH /\ Done
Spec == Init /\ [][Next]_vars
=============================================================================
