------------------------------ MODULE TraceLoop -----------------------------
(* Is what a real process reported about itself a behaviour of Loopback?      *)
EXTENDS Loopback, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES h, l, S, bad
vars == <<h, l, S, bad>>
E == Hist[h].ev[l]
Fail(expected) == bad' = [history |-> Hist[h].id, line |-> l, event |-> E, expected |-> expected]
Ok(next) == S' = next /\ bad' = bad /\ l' = l + 1 /\ h' = h
Refuse(expected) == Fail(expected) /\ UNCHANGED <<h, l, S>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ bad = <<>> /\ S = NewLoop
\* exactly this is reported
Judge(T, heard) == IF SameBag(E.heard, heard) THEN Ok(T) ELSE Refuse([reported |-> heard])
Given(id, v) == IF S.hs[id].g THEN Judge(S, IF S.up THEN << <<S.hs[id].name, v>> >> ELSE <<>>) ELSE Judge(Add(S, S.hs[id].at, v), <<>>)
Read ==
  /\ bad = <<>> /\ l <= Len(Hist[h].ev)
  /\ LET x == E.e
     IN CASE x \in {"died", "hung"} \/ "threw_" \in DOMAIN E -> Refuse("an answer")
          [] x = "new" -> Judge(NewLoop, <<>>)
          [] x = "setup" -> Judge([S EXCEPT !.up = TRUE, !.due = S.now + PERIOD], <<>>)
          [] x = "mk" -> Judge(Make(S, E.id, E.k, E.n), <<>>)
          [] x \in {"add", "val"} -> Given(E.id, E.v)
          [] x \in {"copy", "assign"} -> Judge(Share(S, E.id, E.to), <<>>)
          [] x = "del" -> Judge(Drop(S, E.id), <<>>)
          [] x = "agg" -> IF E.v = S.recs[S.hs[E.id].at].n THEN Judge(S, <<>>) ELSE Refuse([value |-> S.recs[S.hs[E.id].at].n])
          [] x = "sample" -> Judge(Sampled(S), Shown(S))
          [] x = "tick" -> Judge(Pass(S, E.by), IF Fires(S, E.by) THEN Shown(S) ELSE <<>>)
          [] x = "req" -> IF E.code # Answered(E.asked) THEN Refuse([answer |-> Answered(E.asked)])
                          ELSE IF E.heard # Current THEN Refuse([reported |-> Current]) ELSE Ok(Asked(S, E.asked))
          [] x = "stats" -> IF E.port /\ E.cur = 0 THEN Judge(Status(S), <<>>) ELSE Refuse("the status of the HTTP server")
          [] x = "held" -> IF E.cur = E.n /\ E.heard = CurrentOf(E.n) THEN Ok(AskedTimes(Status(S), E.n)) ELSE Refuse([current |-> E.n, reported |-> CurrentOf(E.n)])
          [] x = "burst" -> IF EventsOK(S, E.adds, E.heard) /\ CountsOK(S, E.adds, E.heard) /\ OnlyKnown(S, E.heard) THEN Ok(AfterBurst(S, E.adds))
                            ELSE Refuse([sums |-> [name \in Names(S, TRUE) |-> <<SumOf(S, E.adds, name), HeardSum(E.heard, name)>>]])
          [] OTHER -> Refuse("an event of the specification")
Next == Read
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>>
=============================================================================
