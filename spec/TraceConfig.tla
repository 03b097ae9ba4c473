------------------------------ MODULE TraceConfig ----------------------------
(* Is what the real parsers made of texts what Config says they mean?          *)
EXTENDS Config, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES h, l, O, bad
vars == <<h, l, O, bad>>
E == Hist[h].ev[l]
Refuse(expected) == bad' = [history |-> Hist[h].id, line |-> l, event |-> E, expected |-> expected] /\ UNCHANGED <<h, l, O>>
Go(o) == O' = o /\ bad' = bad /\ l' = l + 1 /\ h' = h
Init == h \in 1..Len(Hist) /\ l = 1 /\ bad = <<>> /\ O = NewOptions
Held(o) == E.num = o.num /\ E.other = o.other /\ E.str = o.str /\ E.flag = o.flag
RetOK == LET p == Policy(E.s) IN
  IF ~PolicyOK(p) THEN ~E.ok
  ELSE E.ok /\ Len(E.iv) = Len(p) /\ \A j \in 1..Len(p) : LET x == E.iv[j] IN x.iv = p[j].iv /\ x.n = p[j].n /\ x.name = p[j].name /\ x.lam = p[j].lam
Read ==
  /\ bad = <<>> /\ l <= Len(Hist[h].ev)
  /\ LET x == E.e
     IN CASE x \in {"died", "hung"} \/ "threw_" \in DOMAIN E -> Refuse("an answer")
          [] x = "time" -> IF E.ok = IsTime(E.s) /\ (E.ok => E.v = TimeOf(E.s)) THEN Go(O) ELSE Refuse(IF IsTime(E.s) THEN TimeOf(E.s) ELSE -1)
          [] x = "write" -> IF E.s = WriteTime(E.n) THEN Go(O) ELSE Refuse(WriteTime(E.n))
          [] x = "ret" -> IF RetOK THEN Go(O) ELSE Refuse([accepted |-> PolicyOK(Policy(E.s)), policy |-> Policy(E.s)])
          [] x = "args" -> LET r == Options(O, E.a, 1) IN IF Held(r.o) /\ E.at = r.at THEN Go(r.o) ELSE Refuse(r)
          [] x = "file" -> LET r == File(O, E.s) IN IF Held(r.o) /\ E.ok = r.ok /\ E.line = r.line THEN Go(r.o) ELSE Refuse(r)
          [] OTHER -> Refuse("an event of the specification")
Spec == Init /\ [][Read]_vars
Accepted == bad = <<>>
=============================================================================
