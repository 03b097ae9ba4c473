------------------------------ MODULE TraceTrail ----------------------------
(* Is a recorded execution of a real trailing file a behaviour of TrailFile?  *)
EXTENDS TrailFile, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES h, l, C, S, bad
vars == <<h, l, C, S, bad>>
E == Hist[h].ev[l]
Fail(expected) == bad' = [history |-> Hist[h].id, line |-> l, event |-> E, expected |-> expected]
Init == h \in 1..Len(Hist) /\ l = 1 /\ bad = <<>> /\ S = <<>> /\ C = <<>>
Refuse(expected) == Fail(expected) /\ UNCHANGED <<h, l, S, C>>
\* averages are rounded to parts, and to what a float holds
Near(a, b) == LET d == IF a > b THEN a - b ELSE b - a IN d <= 3 \/ d <= (IF b < 0 THEN -b ELSE b) \div 500000
Same(a, b) == a.t = b.t /\ a.c = b.c /\ Near(a.s, b.s) /\ Near(a.q, b.q) /\ Near(a.mn, b.mn) /\ Near(a.mx, b.mx)
SlotsOK(T) == /\ {E.slots[j][1] : j \in DOMAIN E.slots} = DOMAIN T.slots
              /\ \A j \in DOMAIN E.slots : Same(E.slots[j][2], T.slots[E.slots[j][1]])
Judge(T) == IF SlotsOK(T) THEN S' = T /\ C' = C /\ bad' = bad /\ l' = l + 1 /\ h' = h
            ELSE Refuse([slots |-> {<<k, T.slots[k]>> : k \in {j \in DOMAIN T.slots : \A x \in DOMAIN E.slots : E.slots[x][1] # j \/ ~Same(E.slots[x][2], T.slots[j])}},
                         file |-> {E.slots[x] : x \in {j \in DOMAIN E.slots : E.slots[j][1] \notin DOMAIN T.slots}}, pending |-> S.pend])
Open == LET c == [n |-> E.n, iv |-> E.iv, create |-> E.zero - (E.zero % E.iv), kind |-> E.kind, fixed |-> E.fixed, season |-> E.season, lam |-> E.lam]
        IN IF E.n >= E.want /\ E.n >= E.season \div E.iv /\ E.slots = <<>> THEN C' = c /\ S' = NewTrail(c) /\ bad' = bad /\ l' = l + 1 /\ h' = h ELSE Refuse("a new file that holds a season")
Read ==
  /\ bad = <<>> /\ l <= Len(Hist[h].ev)
  /\ LET x == E.e
     IN CASE x \in {"died", "hung"} \/ "threw_" \in DOMAIN E -> Refuse("an answer")
          [] x = "topen" -> Open
          [] x = "tupd" -> LET r == Update(C, S, E.d) IN IF E.ok = r.ok /\ E.hdr.last = r.s.last /\ E.hdr.ltime = r.s.ltime THEN Judge(r.s) ELSE Refuse([ok |-> r.ok, last |-> r.s.last, ltime |-> r.s.ltime])
          [] x = "tflush" -> Judge(FlushOne(C, S))
          [] x = "reopen" -> Judge(Close(C, S))
          [] OTHER -> Refuse("an event of the specification")
Spec == Init /\ [][Read]_vars
Accepted == bad = <<>>
=============================================================================
