------------------------------ MODULE TraceHttp -----------------------------
(* Is every recorded answer one that Http allows? Requests of one event are    *)
(* made at the same time, on a connection each.                                *)
EXTENDS Http, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES h, l, S, bad
vars == <<h, l, S, bad>>
E == Hist[h].ev[l]
Fail(expected) == bad' = [history |-> Hist[h].id, line |-> l, event |-> E, expected |-> expected]
Ok(next) == S' = next /\ bad' = bad /\ l' = l + 1 /\ h' = h
Refuse(expected) == Fail(expected) /\ UNCHANGED <<h, l, S>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ bad = <<>> /\ S = NewHttp(FALSE)
SetOf(sq) == {sq[j] : j \in 1..Len(sq)}
Wrongs(T) == {j \in 1..Len(E.rs) : ~AnswerOK(T, E.rs[j].q, E.rs[j].a, E.now)}
Read ==
  /\ bad = <<>> /\ l <= Len(Hist[h].ev)
  /\ LET x == E.e
     IN CASE x \in {"died", "hung"} \/ "threw_" \in DOMAIN E -> Refuse("an answer")
          [] x = "new" -> Ok(NewHttp(E.store))
          [] x = "ctr" -> Ok([S EXCEPT !.ctrs = Append(@, [names |-> E.names, held |-> E.held, broken |-> E.broken])])
          [] x = "agent" -> Ok([S EXCEPT !.agents = Append(@, SetOf(E.x))])
          [] x = "tick" -> Ok(S)
          [] x = "ask" -> IF Wrongs(S) = {} THEN Ok(S)
                          ELSE LET j == Min(Wrongs(S)) IN Refuse([request |-> E.rs[j].q, answer |-> E.rs[j].a, counters |-> S.ctrs])
          [] OTHER -> Refuse("an event of the specification")
Next == Read
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>>
=============================================================================
