------------------------------ MODULE TraceProm -----------------------------
(* Is a recorded execution of the exporter a behaviour of PromEx?              *)
EXTENDS PromEx, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES h, l, S, bad
vars == <<h, l, S, bad>>
E == Hist[h].ev[l]
Fail(expected) == bad' = [history |-> Hist[h].id, line |-> l, event |-> E, expected |-> expected]
Ok(next) == S' = next /\ bad' = bad /\ l' = l + 1 /\ h' = h
Refuse(expected) == Fail(expected) /\ UNCHANGED <<h, l, S>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ bad = <<>> /\ S = NewProm(FALSE)
Q(j) == E.rs[j].q
A(j) == E.rs[j].a
Plain(q) == q.method = "GET" /\ q.url = "/metrics"
\* refused as it should be, or well formed at least
StatusOK(j) == /\ A(j).wf /\ A(j).ended
               /\ IF ~S.on THEN A(j).code = 503
                  ELSE IF Q(j).method # "GET" THEN A(j).code = 405 ELSE IF Q(j).url # "/metrics" THEN A(j).code = 400 ELSE A(j).code = 200
Bad(T) == {j \in 1..Len(E.rs) : ~StatusOK(j) \/ (Plain(Q(j)) /\ S.on /\ ~(IF E.fed = <<>> THEN ScrapeOK(S, A(j), E.now) ELSE DuringOK(S, T, A(j), E.now)))}
Read ==
  /\ bad = <<>> /\ l <= Len(Hist[h].ev)
  /\ LET x == E.e
     IN CASE x \in {"died", "hung"} \/ "threw_" \in DOMAIN E -> Refuse("an answer")
          [] x = "new" -> Ok(NewProm(E.prom))
          [] x = "feed" -> Ok(PutAll(S, E.x, E.now))
          [] x = "tick" -> Ok(S)
          [] x = "ask" -> LET T == PutAll(S, FlattenSeq(E.fed), E.now)
                              ok == {j \in 1..Len(E.rs) : Plain(Q(j)) /\ A(j).code = 200}
                          IN IF Bad(T) = {} THEN Ok(IF E.fed = <<>> /\ ok # {} THEN Settle(S, A(Min(ok)), E.now) ELSE T)
                             ELSE LET j == Min(Bad(T)) IN Refuse([answer |-> A(j), counters |-> T.ctrs, gauges |-> T.gauges, types |-> A(j).code = 200 /\ TypesOK(T, A(j))])
          [] OTHER -> Refuse("an event of the specification")
Next == Read
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>>
=============================================================================
