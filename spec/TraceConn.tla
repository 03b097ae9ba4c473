------------------------------ MODULE TraceConn -----------------------------
(* Is a recorded execution of a real EagerConnection a behaviour of EagerConn? *)
EXTENDS EagerConn, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES h, l, S, bad
vars == <<h, l, S, bad>>
E == Hist[h].ev[l]
Fail(expected) == bad' = [history |-> Hist[h].id, line |-> l, event |-> E, expected |-> expected]
Ok(next) == S' = next /\ bad' = bad /\ l' = l + 1 /\ h' = h
Refuse(expected) == Fail(expected) /\ UNCHANGED <<h, l, S>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ bad = <<>> /\ S = NewConn(0, FALSE)
SetOf(sq) == {sq[j] : j \in 1..Len(sq)}
\* must: a connection has to be there now; most: the largest number of bytes that may be waiting
Judge(T, must) ==
  LET a == Arrivals(T, E.got)
      ended == SetOf(E.gone)
      unfinished == {E.got[j].c : j \in {k \in 1..Len(E.got) : ~E.got[k].whole}}
      over == E.live = 0
      U == [a.S EXCEPT !.live = E.live > 0, !.gone = @ \cup ended]
      left == \A j \in 1..Len(U.q) : U.q[j].id <= U.may
      kept == Kept(U.q, E.p)
  IN IF ~a.ok THEN Refuse([arrived |-> a.at, waiting |-> T.q, mayBeLost |-> T.may, connection |-> a.S.conn])
     ELSE IF E.live > 1 \/ (must /\ E.live = 0) \/ (E.live = 1 /\ ~T.live /\ ~T.listening) THEN Refuse("one connection, if the peer listens")
     ELSE IF ~(unfinished \subseteq ended) THEN Refuse("unfinished line on a connection that goes on")
     ELSE IF E.live = 1 /\ ~T.stalled THEN (IF left /\ E.p = 0 /\ U.said THEN Ok([U EXCEPT !.q = <<>>]) ELSE Refuse([missing |-> U.q, mayBeLost |-> U.may]))
     \* the other side is away: what waits is a suffix of what was written
     ELSE IF E.live = 0 THEN (IF kept # {} /\ \A q \in kept : Len(q) = Len(U.q) \/ U.q[Len(U.q) - Len(q)].id <= U.may
                              THEN Ok([U EXCEPT !.q = CHOOSE q \in kept : TRUE]) ELSE Refuse([waiting |-> U.q, mayBeLost |-> U.may]))
     ELSE Ok(U)
LongestCall == Max({0} \cup {Size(E.calls[j]) : j \in 1..Len(E.calls)})
\* ---- several writers at once: each one's lines in order, each at most once, all of them but for one gap for each
\* connection that ended
WriterOK(w, drops, over) ==
  LET mine == SelectSeq(E.got, LAMBDA g : g.whole /\ g.x >= w.first /\ g.x < w.first + w.n)
      gaps == Cardinality({j \in 1..(Len(mine) + 1) : (IF j > Len(mine) THEN w.first + w.n ELSE mine[j].x) # (IF j = 1 THEN w.first ELSE mine[j - 1].x + 1)})
  IN /\ \A j \in 2..Len(mine) : mine[j].x > mine[j - 1].x
     /\ over \/ gaps <= drops
\* whether the limit may have been exceeded
Over(T) == FoldSeq(LAMBDA w, n : n + w.n * (w.len + 16), 0, E.writers) > T.max
BurstOK(T) ==
  LET conns == {E.got[j].c : j \in 1..Len(E.got)}
      of(c) == SelectSeq(E.got, LAMBDA g : g.c = c)
      ids == [j \in 1..Len(E.writers) |-> E.writers[j].first..(E.writers[j].first + E.writers[j].n - 1)]
      known == UNION {ids[j] : j \in 1..Len(ids)} \cup {T.q[j].id : j \in 1..Len(T.q)}
  IN /\ \A j \in 1..Len(E.writers) : WriterOK(E.writers[j], E.drops, Over(T))
     /\ \A j \in 2..Len(E.got) : E.got[j].c >= E.got[j - 1].c
     /\ \A c \in conns : \A j \in 1..Len(of(c)) :
          /\ of(c)[j].whole \/ (j = Len(of(c)) /\ c \in SetOf(E.gone))
          /\ of(c)[j].whole => IF c = T.conn /\ T.said THEN of(c)[j].x \in known ELSE (of(c)[j].x = 0 <=> j = 1) /\ of(c)[j].x \in known \cup {0}
     /\ E.p = 0 /\ E.live = 1
Read ==
  /\ bad = <<>> /\ l <= Len(Hist[h].ev)
  /\ LET x == E.e
     IN CASE x \in {"died", "hung"} \/ "threw_" \in DOMAIN E -> Refuse("an answer")
          [] x = "new" -> Judge(NewConn(E.max, E.listening), E.listening)
          [] x = "write" -> LET T == Write(S, E.calls)
                            IN IF E.most > S.max + LongestCall + 32 THEN Refuse("within the limit") ELSE Judge(T, S.live)
          [] x = "listen" -> Judge([S EXCEPT !.listening = TRUE], S.live)
          [] x = "unlisten" -> Judge([S EXCEPT !.listening = FALSE], S.live)
          [] x \in {"drop", "rst"} -> IF S.live THEN Judge(End(S, E.pb), FALSE) ELSE Judge(S, FALSE)
          [] x = "down" -> Judge([(IF S.live THEN End(S, E.pb) ELSE S) EXCEPT !.listening = FALSE], FALSE)
          [] x = "stall" -> Judge([S EXCEPT !.stalled = TRUE], S.live)
          [] x = "unstall" -> Judge([S EXCEPT !.stalled = FALSE], S.live)
          [] x = "wait" -> Judge(S, S.listening \/ S.live)
          [] x = "burst" -> IF BurstOK(S) THEN Ok([S EXCEPT !.live = TRUE, !.said = TRUE, !.q = <<>>, !.may = 0,
                                                   !.conn = Max({S.conn} \cup {E.got[j].c : j \in 1..Len(E.got)}), !.gone = @ \cup SetOf(E.gone)])
                            ELSE Refuse([order |-> [j \in 1..Len(E.writers) |-> WriterOK(E.writers[j], E.drops, Over(S))]])
          [] OTHER -> Refuse("an event of the specification")
Next == Read
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>>
=============================================================================
