------------------------------ MODULE TraceSplit ----------------------------
(* Is a recorded execution of the real splitter a behaviour of Splitter?      *)
EXTENDS Splitter, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES h, l, nt, deaf, S, bad
vars == <<h, l, nt, deaf, S, bad>>
E == Hist[h].ev[l]
Fail(expected) == bad' = [history |-> Hist[h].id, line |-> l, event |-> E, expected |-> expected]
Refuse(expected) == Fail(expected) /\ UNCHANGED <<h, l, nt, deaf, S>>
\* S: the sessions, by number
Init == h \in 1..Len(Hist) /\ l = 1 /\ bad = <<>> /\ S = <<>> /\ nt = 0 /\ deaf = {}
Same(T) == {E.is[j].s : j \in DOMAIN E.is} = DOMAIN T
Wrong(T) == {E.is[j].s : j \in {i \in DOMAIN E.is : ~SessionOK(T[E.is[i].s], E.is[i].e)}}
Judge(T) == IF Same(T) /\ Wrong(T) = {} THEN S' = T /\ bad' = bad /\ l' = l + 1 /\ UNCHANGED <<h, nt>> ELSE Refuse([sessions |-> T])
Of(id) == E.is[CHOOSE j \in DOMAIN E.is : E.is[j].s = id].e
RECURSIVE Sends(_, _)
Sends(T, x) == IF x = <<>> THEN T ELSE Sends([T EXCEPT ![x[1][1]] = Sent(@, x[1][2], x[1][3])], Tail(x))
Close ==
  LET T == [S EXCEPT ![E.id] = Sent(@, E.k, E.n)]
  IN IF ~Same(T) \/ Wrong(T) \ {E.id} # {} THEN Refuse([others |-> T])
     ELSE IF ~LastOK(T[E.id], E.k, Of(E.id)) THEN Refuse([last |-> T[E.id]])
     ELSE IF E.kids # Cardinality(DOMAIN S) - 1 THEN Refuse([processes |-> Cardinality(DOMAIN S) - 1])
     ELSE S' = [i \in DOMAIN S \ {E.id} |-> S[i]] /\ bad' = bad /\ l' = l + 1 /\ UNCHANGED <<h, nt, deaf>>
Read ==
  /\ bad = <<>> /\ l <= Len(Hist[h].ev)
  /\ LET x == E.e
     IN CASE x \in {"died", "hung"} \/ "threw_" \in DOMAIN E -> Refuse("an answer")
          [] x = "new" -> nt' = E.nt /\ S' = S /\ l' = l + 1 /\ UNCHANGED <<h, deaf, bad>>
          [] x = "open" -> IF E.ended # (deaf # {}) THEN Refuse([ended |-> deaf # {}])
                           ELSE Judge(IF deaf = {} THEN (E.id :> NewSession(nt)) @@ S ELSE S) /\ UNCHANGED deaf
          [] x = "send" -> Judge(Sends(S, E.sent)) /\ UNCHANGED deaf
          [] x = "stall" -> Judge([S EXCEPT ![E.id].stalled = @ \cup {E.k}]) /\ UNCHANGED deaf
          [] x = "unstall" -> Judge([S EXCEPT ![E.id].stalled = @ \ {E.k}]) /\ UNCHANGED deaf
          [] x = "close" -> Close
          [] x = "deaf" -> Judge(S) /\ deaf' = deaf \cup {E.k}
          [] x = "hear" -> Judge(S) /\ deaf' = deaf \ {E.k}
          [] OTHER -> Refuse("an event of the specification")
Spec == Init /\ [][Read]_vars
Accepted == bad = <<>>
=============================================================================
