----------------------------- MODULE TraceServer ----------------------------
(* Is a recorded execution of the real server a behaviour of StatServer? *)
EXTENDS StatServer, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES h, l, S, bad
vars == <<h, l, S, bad>>
E == Hist[h].ev[l]
SetOf(sq) == {sq[j] : j \in 1..Len(sq)}
Fail(expected) == bad' = [history |-> Hist[h].id, line |-> l, event |-> E, expected |-> expected]
Ok(next) == S' = next /\ bad' = bad /\ l' = l + 1 /\ h' = h
Refuse(expected) == Fail(expected) /\ UNCHANGED <<h, l, S>>

UDP == 1000
Fresh == [fw |-> 0, bl |-> FALSE, store |-> TRUE, now |-> 0, C |-> <<>>, P |-> <<>>, wait |-> FALSE, disk |-> {}, list |-> {},
          live |-> {}, seen |-> {}, listening |-> FALSE, missed |-> 0, must |-> <<>>, may |-> <<>>, hmetas |-> <<>>,
          asked |-> {}, waits |-> {}, gone |-> {}]
Init == h \in 1..Len(Hist) /\ l = 1 /\ bad = <<>> /\ S = Fresh
\* a connection (or the senders of datagrams together)
NewConn == NewSender @@ [open |-> TRUE, reg |-> FALSE, since |-> 0, last |-> 0]
SenderOf(c) == [buf |-> c.buf, attrs |-> c.attrs, dead |-> c.dead]
Lists(T) == IF T.bl THEN T.list ELSE {}
\* what the bytes of connection i do; the rest of the state after
Fed(T, i, b) ==
  LET c == T.C[i]
      r == Bytes(SenderOf(c), b, Lists(T))
      c2 == r[1] @@ [open |-> c.open /\ ~r[1].dead, reg |-> TRUE, since |-> IF c.reg THEN c.since ELSE T.now, last |-> T.now]
  IN IF ~c.open \/ c.dead \/ Len(b) = 0 THEN [T |-> T, recs |-> <<>>, metas |-> <<>>]
     ELSE [T |-> [T EXCEPT !.C[i] = c2, !.P = IF T.fw > 0 THEN PendAll(T.P, r[2].recs, T.now) ELSE T.P],
           recs |-> r[2].recs, metas |-> r[2].metas]
RECURSIVE FedUdp(_, _, _, _)
FedUdp(T, ds, recs, metas) ==
  IF ds = <<>> THEN [T |-> T, recs |-> recs, metas |-> metas]
  ELSE LET T1 == IF T.wait THEN [T EXCEPT !.now = @ + 3, !.wait = FALSE] ELSE T
           d == ds[1]
           r == Datagrams(SenderOf(T1.C[UDP]), <<d>>, NoOutput)
           c == T1.C[UDP]
           c2 == r[1] @@ [open |-> TRUE, reg |-> c.reg \/ r[2].metas # <<>>, since |-> IF c.reg THEN c.since ELSE T1.now,
                          last |-> IF c.reg THEN c.last ELSE T1.now]
           good == Len(d) >= 5 /\ d[Len(d)] = LF
           T2 == [T1 EXCEPT !.C[UDP] = c2, !.P = IF T1.fw > 0 THEN PendAll(T1.P, r[2].recs, T1.now) ELSE T1.P, !.wait = ~good]
       IN FedUdp(T2, Tail(ds), recs \o r[2].recs, metas \o r[2].metas)
RECURSIVE FedAll(_, _, _)
\* several senders: acts one after the other (they do not influence each other); recs per sender
FedAll(T, acts, done) ==
  IF acts = <<>> THEN [T |-> T, by |-> done]
  ELSE LET a == acts[1]
           r == IF a.i = UDP THEN FedUdp(T, a.ds, <<>>, <<>>) ELSE Fed(T, a.i, a.b)
       IN FedAll(r.T, Tail(acts), Append(done, [i |-> a.i, recs |-> r.recs, metas |-> r.metas]))

\* ------------------------------------------------------------- what came out
RecsOK(T, recs) == E.recs = (IF T.store THEN recs ELSE <<>>)
Owner(n) == LET x == IF Len(n) > 0 /\ n[1] = Star THEN Tail(n) ELSE n IN IF x = <<>> THEN 0 ELSE IF x[1] = 117 THEN UDP ELSE x[1] - 97
RecsOfAll(T, by) ==
  IF ~T.store THEN E.recs = <<>>
  ELSE /\ \A k \in 1..Len(by) : SelectSeq(E.recs, LAMBDA r : Owner(r.n) = by[k].i) = by[k].recs
       /\ Len(E.recs) = FoldSeq(LAMBDA x, y : Len(x.recs) + y, 0, by)
ClosedOK(T0, T1) ==
  /\ Len(E.closed) = Cardinality(SetOf(E.closed))
  /\ SetOf(E.closed) = {i \in DOMAIN T1.C : T1.C[i].dead /\ ~T0.C[i].dead /\ i \notin T1.gone}
\* ---- upstream
Norm(x) == [x EXCEPT !.t = IF @ = Big THEN @ ELSE AlignDown(@)]
DataLines == LET d == SelectSeq(E.up, LAMBDA u : u.x.k # "m") IN [j \in 1..Len(d) |-> Norm([f \in (DOMAIN d[j].x) \ {"whole"} |-> d[j].x[f]])]
CountIn(sq, x) == Cardinality({j \in 1..Len(sq) : sq[j] = x})
FewerThan(a, b) == \A x \in SetOf(a) : CountIn(a, x) <= CountIn(b, x)
SameLines(a, b) == Len(a) = Len(b) /\ FewerThan(a, b)
Of(c) == LET u == SelectSeq(E.up, LAMBDA x : x.c = c) IN [j \in 1..Len(u) |-> u[j].x]
Metas(sq) == LET m == SelectSeq(sq, LAMBDA x : x.k = "m") IN [j \in 1..Len(m) |-> m[j].l]
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Proto == <<35, 112, 114, 111, 116, 111, 32, 120, 32, 49, 32, 49, 13>>
Version == <<35, 118, 101, 114, 115, 105, 111, 110, 32>>
HostName == <<35, 104, 111, 115, 116, 110, 97, 109, 101, 32>>
Ident(sq) == Len(sq) >= 3 /\ sq[1].k = "m" /\ sq[1].l = Proto /\ sq[2].k = "m" /\ Starts(sq[2].l, Version) /\ sq[3].k = "m" /\ Starts(sq[3].l, HostName)
\* T: state after the input; round: pending samples are sent in this event; passes: time goes by, at least
\* as long as a connection waits between attempts ("must"), a little ("may"), or not ("no"); ordered: metas in this order
Upstream(T, round, passes, metas, ordered) ==
  LET lines == IF round THEN LET s == UpLines(T.P) IN [j \in 1..Cardinality(s) |-> Norm(SetToSeq(s)[j])] ELSE <<>>
      P2 == IF round THEN <<>> ELSE T.P
      data == DataLines
      chans == {E.up[j].c : j \in 1..Len(E.up)}
      new == chans \ T.seen
      n == Cardinality(T.live)
      full == n = T.fw
      sameMetas(a, b) == IF ordered THEN a = b ELSE SameLines(a, b)
      missed2 == IF ~round THEN T.missed ELSE IF full THEN 0 ELSE T.missed + 1
      given == missed2 > 3
      oldOK == \A c \in T.live : sameMetas(Metas(Of(c)), metas)
      newOK == \A c \in new : Ident(Of(c)) /\ SameLines(SubSeq(Metas(Of(c)), 4, Len(Metas(Of(c)))), T.hmetas \o metas)
      whole == \A j \in 1..Len(E.up) : E.up[j].x.whole
      base == [T EXCEPT !.P = P2, !.missed = missed2, !.seen = @ \cup new]
  IN IF T.fw = 0 THEN [ok |-> E.up = <<>> /\ E.live = 0, T |-> base, want |-> <<>>]
     ELSE IF full THEN [ok |-> new = {} /\ chans \subseteq T.live /\ whole /\ oldOK /\ SameLines(data, lines) /\ E.live = T.fw /\ E.gone = <<>>,
                        T |-> base, want |-> lines]
     ELSE IF new = {} THEN
            [ok |-> /\ ~(T.listening /\ passes = "must")
                    /\ chans \subseteq T.live /\ whole /\ oldOK /\ E.live = n /\ E.gone = <<>>
                    /\ FewerThan(data, lines)
                    /\ (n = 0 => data = <<>>) /\ (n > 0 /\ given => SameLines(data, lines)),
             T |-> [base EXCEPT !.hmetas = @ \o metas,
                                !.must = IF given THEN @ ELSE @ \o SelectSeq(lines, LAMBDA x : x \notin SetOf(data)),
                                !.may = IF given THEN @ \o SelectSeq(lines, LAMBDA x : x \notin SetOf(data)) ELSE @],
             want |-> lines]
     ELSE LET must == T.must \o (IF given /\ n = 0 THEN <<>> ELSE lines)
              may == T.may \o (IF given /\ n = 0 THEN lines ELSE <<>>)
          IN [ok |-> /\ T.listening /\ passes # "no" /\ n + Cardinality(new) = T.fw
                     /\ chans \subseteq T.live \cup new /\ whole /\ oldOK /\ newOK /\ E.live = T.fw /\ E.gone = <<>>
                     /\ FewerThan(must, data) /\ FewerThan(data, must \o may),
              T |-> [base EXCEPT !.live = @ \cup new, !.must = <<>>, !.may = <<>>, !.hmetas = <<>>],
              want |-> must]
Full(T) == Cardinality(T.live) = T.fw
\* what was sent in several rounds, put together
KeyOf(x) == [k |-> x.k, n |-> x.n, t |-> x.t]
Together(x, y) == IF x.k = "e" THEN [x EXCEPT !.v = @ + y.v] ELSE [k |-> "g", n |-> x.n] @@ Merge(x, y)
MergeAll(sq) == FoldSeq(LAMBDA x, acc : (KeyOf(x) :> IF KeyOf(x) \in DOMAIN acc THEN Together(acc[KeyOf(x)], x) ELSE x) @@ acc, <<>>, sq)
\* answers to flush requests
AnswersOK(T, T2) ==
  /\ Len(E.ans) = Cardinality(SetOf(E.ans)) /\ SetOf(E.ans) \subseteq T.asked
  /\ (Full(T2) => SetOf(E.ans) = T.asked)
  /\ (~Full(T2) => SetOf(E.ans) \cap T2.waits = {})
Answered(T) == [T EXCEPT !.asked = @ \ SetOf(E.ans), !.waits = @ \ SetOf(E.ans)]
\* everything but the input itself
Common(T0, T, round, passes, metas, ordered, recsOK, recs) ==
  LET u == Upstream(T, round, passes, metas, ordered)
      T2 == IF round /\ E.e = "sync" /\ ~Full(u.T) /\ (u.T.must # <<>> \/ u.T.hmetas # <<>>) /\ u.T.missed <= 3
            THEN [u.T EXCEPT !.waits = @ \cup {E.id}] ELSE u.T
      ansOK == AnswersOK(T, T2)
      closedOK == ClosedOK(T0, T)
      nowOK == E.now = T.now
  IN IF recsOK /\ u.ok /\ ansOK /\ closedOK /\ nowOK THEN Ok(Answered(T2))
     ELSE Refuse([records |-> IF recsOK THEN "ok" ELSE recs, upstream |-> IF u.ok THEN "ok" ELSE u.want, live |-> T.live, must |-> T.must, metas |-> metas, held |-> T.hmetas,
                  answers |-> ansOK, closed |-> closedOK, now |-> T.now])
\* ---- the registry
Attrs(a) == [k \in {a.attrs[j][1] : j \in 1..Len(a.attrs)} |-> (CHOOSE j \in 1..Len(a.attrs) : a.attrs[j][1] = k)]
AttrsOf(a) == LET m == Attrs(a) IN [k \in DOMAIN m |-> a.attrs[m[k]][2]]
Online(T) == {i \in DOMAIN T.C : T.C[i].reg /\ T.C[i].open}
RegistryOK(T, lst) ==
  LET on == SelectSeq(lst, LAMBDA a : a.online)
  IN /\ {on[j].who : j \in 1..Len(on)} = Online(T) /\ Len(on) = Cardinality(Online(T))
     /\ \A j \in 1..Len(on) : LET c == T.C[on[j].who]
          IN on[j].connected = c.since /\ on[j].activity = c.last /\ AttrsOf(on[j]) = c.attrs
     /\ \A j \in 1..Len(lst) : lst[j].online \/ lst[j].who \notin Online(T)
Shown(T) == {[i |-> i, c |-> T.C[i]] : i \in Online(T)}
LinesOfFile(d) == {Lower(x) : x \in {y \in SetOf(Pieces(d, LF)) : y # <<>>}}

Read ==
  /\ bad = <<>> /\ l <= Len(Hist[h].ev)
  /\ LET x == E.e
         T == S
     IN CASE x = "new" ->
               LET ids == {E.up[j].c : j \in 1..Len(E.up)}
                   N == [Fresh EXCEPT !.fw = E.fw, !.bl = E.bl, !.store = E.store, !.now = E.now, !.live = ids, !.seen = ids, !.listening = TRUE,
                                      !.C = (UDP :> NewConn)]
               IN IF E.live = E.fw /\ Cardinality(ids) = E.fw /\ (\A c \in ids : Ident(Of(c)) /\ Len(Of(c)) = 3) /\ E.recs = <<>>
                  THEN Ok(N) ELSE Refuse("connections with their identification")
          [] x = "now" -> LET T1 == [T EXCEPT !.now = E.now] IN Common(T, T1, FALSE, "no", <<>>, TRUE, RecsOK(T1, <<>>), <<>>)
          [] x = "conn" -> LET T1 == [T EXCEPT !.C = (E.i :> NewConn) @@ @] IN Common(T1, T1, FALSE, "no", <<>>, TRUE, RecsOK(T1, <<>>), <<>>)
          [] x \in {"send", "sendclose"} ->
               LET r == Fed(T, E.i, E.b)
                   T1 == IF x = "sendclose" THEN [r.T EXCEPT !.C[E.i].open = FALSE, !.gone = @ \cup {E.i}] ELSE r.T
               IN Common(T, T1, FALSE, "no", r.metas, TRUE, RecsOK(T1, r.recs), r.recs)
          [] x \in {"close", "rst"} ->
               LET T1 == [T EXCEPT !.C[E.i].open = FALSE, !.gone = @ \cup {E.i}] IN Common(T, T1, FALSE, "no", <<>>, TRUE, RecsOK(T1, <<>>), <<>>)
          [] x = "udp" -> LET r == FedUdp(T, E.ds, <<>>, <<>>)
                          IN Common(T, r.T, FALSE, IF r.T.now > T.now THEN "may" ELSE "no", r.metas, TRUE, RecsOK(r.T, r.recs), r.recs)
          [] x = "burst" /\ E.ids = <<>> ->
               LET r == FedAll(T, E.acts, <<>>)
                   metas == FoldSeq(LAMBDA y, z : z \o y.metas, <<>>, r.by)
               IN Common(T, r.T, FALSE, IF r.T.now > T.now THEN "may" ELSE "no", metas, FALSE, RecsOfAll(r.T, r.by), r.by)
          [] x = "burst" -> \* with flushes before, after, and at the same time (only when connected)
               LET first == SetToSeq(UpLines(T.P))
                   r == FedAll([T EXCEPT !.P = <<>>], E.acts, <<>>)
                   metas == FoldSeq(LAMBDA y, z : z \o y.metas, <<>>, r.by)
                   want == MergeAll([j \in 1..Len(first) |-> Norm(first[j])] \o LET s == SetToSeq(UpLines(r.T.P)) IN [j \in 1..Len(s) |-> Norm(s[j])])
                   got == MergeAll(DataLines)
                   ok == /\ Full(T) /\ SetOf(E.ans) = SetOf(E.ids) \cup T.asked /\ Len(E.ans) = Cardinality(SetOf(E.ans)) /\ E.gone = <<>> /\ E.live = T.fw
                         /\ {E.up[j].c : j \in 1..Len(E.up)} \subseteq T.live /\ \A j \in 1..Len(E.up) : E.up[j].x.whole
                         /\ \A c \in T.live : SameLines(Metas(Of(c)), metas)
                         /\ got = want /\ RecsOfAll(r.T, r.by) /\ ClosedOK(T, r.T) /\ E.now = r.T.now
               IN IF ok THEN Ok([r.T EXCEPT !.P = <<>>, !.asked = {}, !.waits = {}, !.missed = 0]) ELSE Refuse([want |-> want, got |-> got, metas |-> metas])
          [] x \in {"round", "check", "wait"} ->
               LET T1 == [T EXCEPT !.now = @ + 400, !.wait = FALSE,
                                   !.list = IF x = "wait" \/ T.disk = {} THEN @ ELSE LinesOfFile(CHOOSE d \in T.disk : TRUE)]
               IN Common(T, T1, x = "round", "must", <<>>, TRUE, RecsOK(T1, <<>>), <<>>)
          [] x = "sync" -> LET T1 == [T EXCEPT !.asked = @ \cup {E.id}] IN Common(T, T1, TRUE, "no", <<>>, TRUE, RecsOK(T1, <<>>), <<>>)
          [] x \in {"agents", "purge"} ->
               IF /\ RegistryOK(T, E.list)
                  /\ (x = "purge" => LET off == SelectSeq(E.list, LAMBDA a : ~a.online)
                                     IN Len(off) <= E.max /\ \A j \in 1..Len(off) : off[j].activity > T.now - E.age)
               THEN Common(T, T, FALSE, "no", <<>>, TRUE, RecsOK(T, <<>>), <<>>)
               ELSE Refuse([agents |-> Shown(T)])
          [] x = "bl" -> LET T1 == [T EXCEPT !.disk = {E.d}] IN Common(T, T1, FALSE, "no", <<>>, TRUE, RecsOK(T1, <<>>), <<>>)
          [] x = "blrm" -> LET T1 == [T EXCEPT !.disk = {}] IN Common(T, T1, FALSE, "no", <<>>, TRUE, RecsOK(T1, <<>>), <<>>)
          [] x = "down" -> IF E.up = <<>> /\ E.live = 0 THEN Ok([T EXCEPT !.live = {}, !.listening = FALSE]) ELSE Refuse("no connections")
          [] x = "drop" -> IF E.up = <<>> /\ E.live = T.fw - 1 THEN Ok([T EXCEPT !.live = @ \ {E.id}]) ELSE Refuse("one connection less")
          [] x = "up" -> LET T1 == [T EXCEPT !.listening = TRUE] IN Common(T, T1, FALSE, "no", <<>>, TRUE, RecsOK(T1, <<>>), <<>>)
          [] OTHER -> Refuse("an event of the specification")
Spec == Init /\ [][Read]_vars
Accepted == bad = <<>>
=============================================================================
