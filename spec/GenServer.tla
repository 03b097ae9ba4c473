------------------------------ MODULE GenServer -----------------------------
(* Histories of a server: what senders do, in what pieces it arrives, changes *)
(* of the blacklist, rounds of forwarding with connections lost and made.     *)
EXTENDS Text, FiniteSets, TLC, SequencesExt, Json
CONSTANTS DEPTH, PROFILE
VARIABLES fw, now, conns, held, next, net, id, stamp, file, ops
vars == <<fw, now, conns, held, next, net, id, stamp, file, ops>>
One(X) == {RandomElement(X)}
LF == <<10>>
Base == 1000000200
UDP == 1000

\* ---- texts
Names == Texts({"a.b", "*e", "a.b^c", "a^b^c", "^x", "a^", "a^^b", "*e^f", "x^y^", "^", "^^", ".", "a", "A.B.c", "cpu.user.^all^host.x", "*", "**", "a^*b", "x^.y", "0", "-1"})
OddNames == Texts({"@x", "$r", "%q", "&a", ";b", ":c", "a#b", "a@b"}) \cup {<<200, 97>>, <<97, 0, 98>>, [j \in 1..300 |-> 120]}
Values == Texts({"1", "2.5", "-3", "+4", "1e2", "25e-2", ".5", "5.", "nan", "0", "007", "-0.25", "123456", "1.0625", "-7.5e1", "+.25", "NaN", "-nan"})
BadValues == Texts({"x", "1x", "1e", "--1", "1.2.3", "0x10", "e5", ".", "1,5", "+", "1e5e5"})
Exact == Texts({"1", "2.5", "-3", "4", "100", "0.25", "0", "17", "-0.5", "750.75"})
Counts == Texts({"1", "3", "12", "0", "+2", "1000000000", "4000000000"})
GoodCounts == Texts({"1", "3", "12"})
Seps == {<<32>>, <<32>>, <<32>>, <<32, 32>>, <<9>>, <<32, 9, 32>>}
Num(t) == LET d == <<48 + ((t \div 1000000000) % 10), 48 + ((t \div 100000000) % 10), 48 + ((t \div 10000000) % 10), 48 + ((t \div 1000000) % 10), 48 + ((t \div 100000) % 10),
                     48 + ((t \div 10000) % 10), 48 + ((t \div 1000) % 10), 48 + ((t \div 100) % 10), 48 + ((t \div 10) % 10), 48 + (t % 10)>> IN d
Near == {now - 61, now - 45, now - 30, now - 25, now - 10, now - 3, now, now, now, now, now + 4, now + 10, now + 21}
OddTimes == Texts({"0", "-5", "10", "9999999999", "-9999999999", "5296967496", "123456789012345678", "12345678901234567890", "1.5", "x", "+1000000150"})
RandTime(z) == IF RandomElement(1..4) = 1 THEN RandomElement(OddTimes) ELSE Num(RandomElement(Near))
RandValue(z) == IF PROFILE = "forward" \/ fw > 0 THEN (IF RandomElement(1..25) = 1 THEN RandomElement(BadValues) ELSE RandomElement(Exact))
             ELSE IF RandomElement(1..8) = 1 THEN RandomElement(BadValues) ELSE RandomElement(Values)
RandCount(z) == IF PROFILE = "forward" \/ fw > 0 THEN RandomElement(GoodCounts)
             ELSE IF RandomElement(1..6) = 1 THEN RandomElement(Texts({"-1", "x", "1.5", "-0"})) ELSE RandomElement(Counts)
S(z) == RandomElement(Seps)
MetaTexts == Texts({"#k v", "#os linux", "#os   bsd 7 ", "#hostname web1", "#hostname Web2", "#k", "# v", "#", "#a.b  c", "#k v w", "#x =1", "#hostname web1.example.com"})
RandName(w) == \* w: who sends it, when it must show
  IF w # 99 THEN LET c == <<IF w = UDP THEN 117 ELSE 97 + w>>
                 IN RandomElement({c, c \o Codes(".b"), c \o Codes(".b^x^y"), <<42>> \o c, c \o Codes("^"), <<42>> \o c \o Codes(".q")})
  ELSE IF PROFILE # "ingest" THEN RandomElement(Texts({"a.b", "*e", "a.b^c^d", "x", "*e.f", "g.h.i"}))
  ELSE IF RandomElement(1..8) = 1 THEN RandomElement(OddNames) ELSE RandomElement(Names)
CounterLine(w) ==
  LET n == RandName(w)
      k == RandomElement(1..20)
  IN IF k <= 7 THEN n \o S(w) \o RandValue(w)
     ELSE IF k <= 13 THEN n \o S(w) \o RandTime(w) \o S(w) \o RandValue(w)
     ELSE IF k <= 17 THEN n \o S(w) \o RandTime(w) \o S(w) \o RandValue(w) \o S(w) \o RandValue(w) \o S(w) \o RandValue(w) \o S(w) \o RandValue(w) \o S(w) \o RandCount(w)
     ELSE IF w # 99 \/ PROFILE = "forward" THEN n \o S(w) \o RandValue(w)
     ELSE IF k = 18 THEN n
     ELSE IF k = 19 THEN n \o S(w) \o RandValue(w) \o S(w) \o RandValue(w) \o S(w) \o RandValue(w)
     ELSE n \o S(w) \o RandTime(w) \o S(w) \o RandValue(w) \o S(w) \o RandValue(w) \o S(w) \o RandValue(w) \o S(w) \o RandValue(w) \o S(w) \o RandCount(w) \o S(w) \o Codes("extra")
Plain(w) == IF RandomElement(1..7) = 1 THEN RandomElement(MetaTexts) ELSE CounterLine(w)
Hosts == Texts({"#hostname web1", "#hostname Web2", "#hostname WEB1", "#hostname other", "#host web1", "#hostname  web3 "})
Line(w) ==
  LET k == RandomElement(1..30)
      body == CASE PROFILE = "blacklist" -> (IF RandomElement(1..3) = 1 THEN RandomElement(Hosts) ELSE CounterLine(w))
                [] PROFILE = "agents" -> (IF RandomElement(1..2) = 1 THEN RandomElement(MetaTexts) ELSE CounterLine(w))
                [] OTHER -> Plain(w)
  IN IF w # 99 THEN body \o LF
     ELSE IF k = 1 THEN LF
     ELSE IF k = 2 THEN <<32, 32>> \o LF
     ELSE IF k = 3 THEN <<32>> \o body \o LF
     ELSE IF k <= 8 THEN body \o <<13>> \o LF
     ELSE IF k = 9 THEN body \o <<32>> \o LF
     ELSE body \o LF
Lines(w, n) == IF n = 1 THEN Line(w) ELSE IF n = 2 THEN Line(w) \o Line(w) ELSE Line(w) \o Line(w) \o Line(w)

\* ---- operations
Init == \E fi \in 1..4, s \in 0..2 : \E f \in {CASE PROFILE = "forward" -> <<1, 1, 2, 3>>[fi] [] PROFILE = "ingest" -> <<0, 0, 0, 1>>[fi] [] OTHER -> 0} :
  \E st \in {IF f > 0 /\ s = 0 THEN 0 ELSE 1} :
  /\ fw = f /\ now = Base /\ conns = {} /\ held = <<>> /\ next = 0 /\ net = "live" /\ id = 0 /\ stamp = 0 /\ file = FALSE
  /\ ops = <<[o |-> "new", fw |-> f, bl |-> IF PROFILE = "blacklist" THEN 1 ELSE 0, store |-> st, z |-> <<fi, s>>]>>
Emit(x) == ops' = Append(ops, x)
\* (fw, net, id, stamp, file) and the like stay
Conn == /\ next < 10 /\ Emit([o |-> "conn", i |-> next]) /\ conns' = conns \cup {next} /\ held' = (next :> <<>>) @@ held /\ next' = next + 1
        /\ UNCHANGED <<fw, now, net, id, stamp, file>>
Send == \E i \in One(conns), n \in One({1, 1, 2, 3}), how \in One(1..4) : \E b \in {held[i] \o Lines(99, n)} :
  \E k \in One(IF how = 1 /\ PROFILE = "ingest" THEN 1..Len(b) ELSE {Len(b)}) :
     /\ Emit([o |-> "send", i |-> i, b |-> SubSeq(b, 1, k)]) /\ held' = [held EXCEPT ![i] = SubSeq(b, k + 1, Len(b))]
     /\ UNCHANGED <<fw, now, conns, next, net, id, stamp, file>>
SendClose == \E i \in One(conns) : \E b \in {held[i] \o Lines(99, 2)} : \E k \in One({Len(b), Len(b), Len(b) - 1}) :
     /\ Emit([o |-> "sendclose", i |-> i, b |-> SubSeq(b, 1, k)]) /\ conns' = conns \ {i}
     /\ UNCHANGED <<fw, now, held, next, net, id, stamp, file>>
Close == \E i \in One(conns), k \in One({"close", "close", "rst"}) : Emit([o |-> k, i |-> i]) /\ conns' = conns \ {i} /\ UNCHANGED <<fw, now, held, next, net, id, stamp, file>>
\* datagrams: whole lines; sometimes not
Datagram(w) == LET k == RandomElement(1..10)
               IN IF w # 99 \/ k < 8 THEN Lines(w, RandomElement(1..3)) ELSE IF k = 8 THEN Lines(w, 1) \o CounterLine(w)
                  ELSE IF k = 9 THEN RandomElement({<<10>>, Codes("a 1") \o LF, Codes("abcd"), Codes("a 1") \o LF \o LF}) ELSE LF \o Lines(w, 2)
Udp == \E n \in One({1, 1, 2}) : \E d1 \in {Datagram(99)} : \E d2 \in {Datagram(99)} :
  Emit([o |-> "udp", ds |-> IF n = 1 THEN <<d1>> ELSE <<d1, d2>>]) /\ UNCHANGED <<fw, now, conns, held, next, net, id, stamp, file>>
Clock == \E d \in One({1, 4, 7, 10, 33}) : now' = now + d /\ Emit([o |-> "now", d |-> d]) /\ UNCHANGED <<fw, conns, held, next, net, id, stamp, file>>
Burst == /\ \A i \in conns : held[i] = <<>>
         /\ \E who \in One({SetToSeq(conns), SetToSeq(conns), SetToSeq(conns) \o <<UDP>>, <<UDP>>}), ns \in One({1, 2, 3}) :
            \E acts \in {[k \in 1..Len(who) |-> [i |-> who[k], b |-> [j \in 1..RandomElement(2..4) |-> Lines(who[k], RandomElement(1..2))]]]} :
              \* the pieces of a connection need not be lines
              /\ who # <<>>
              /\ Emit([o |-> "burst", servers |-> ns, acts |-> acts, cut |-> RandomElement(0..9), ids |-> <<>>])
         /\ UNCHANGED <<fw, now, conns, held, next, net, id, stamp, file>>
\* flushes while senders are at it
Flushes == /\ \A i \in conns : held[i] = <<>>
           /\ \E who \in {SetToSeq(conns)}, ns \in One({1, 2, 3}), k \in One(2..4) :
              \E acts \in {[j \in 1..Len(who) |-> [i |-> who[j], b |-> [m \in 1..RandomElement(3..6) |-> Lines(who[j], RandomElement(1..2))]]]} :
                Emit([o |-> "burst", servers |-> ns, acts |-> acts, cut |-> RandomElement(0..9), ids |-> [j \in 1..k |-> id + j - 1]]) /\ id' = id + k
           /\ UNCHANGED <<fw, now, conns, held, next, net, stamp, file>>
Agents == Emit([o |-> "agents"]) /\ UNCHANGED <<fw, now, conns, held, next, net, id, stamp, file>>
Purge == \E m \in One({0, 1, 3, 100}), a \in One({0, 5, 100}) : Emit([o |-> "purge", max |-> m, age |-> a]) /\ UNCHANGED <<fw, now, conns, held, next, net, id, stamp, file>>
\* every version of the list differs in size or time from the one before
Entries == {<<>>, Codes("web1") \o LF, Codes("WEB1") \o LF \o Codes("web3"), Codes("web2") \o LF, Codes("other") \o LF \o LF \o Codes("web2") \o LF, Codes("web") \o LF, Codes("web1.example.com") \o LF}
List == \E d \in One(Entries), k \in One({"n", "s", "back"}) :
  LET st == IF k = "n" THEN stamp + 1 ELSE IF k = "s" THEN stamp + 1000 ELSE stamp + 1
  IN /\ Emit([o |-> "bl", d |-> d, sec |-> IF k = "back" THEN 500 + (st \div 1000) ELSE 900 + (st \div 1000), ns |-> (st % 1000)])
     /\ stamp' = st /\ file' = TRUE /\ UNCHANGED <<fw, now, conns, held, next, net, id>>
Unlist == Emit([o |-> "blrm"]) /\ file' = FALSE /\ UNCHANGED <<fw, now, conns, held, next, net, id, stamp>>
\* time passes: now + 400
Passes(k) == /\ Emit([o |-> k]) /\ now' = now + 400 /\ net' = (IF net = "up" /\ k # "round" THEN "live" ELSE net) /\ UNCHANGED <<fw, conns, held, next, id, stamp, file>>
Check == Passes("check")
Wait == Passes("wait")
Round == Passes("round")
Sync == Emit([o |-> "sync", id |-> id]) /\ id' = id + 1 /\ UNCHANGED <<fw, now, conns, held, next, net, stamp, file>>
\* the connections break: all of them and none can be made, or one
Net(k) == /\ Emit([o |-> k]) /\ net' = (IF k = "drop" THEN "up" ELSE k) /\ UNCHANGED <<fw, now, conns, held, next, id, stamp, file>>
Break == \E k \in One({"down", "down", "drop"}) : Net(k)
Up == Net("up")

Weight == CASE PROFILE = "ingest" -> <<12, 50, 4, 3, 16, 3, 8, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
            [] PROFILE = "forward" -> <<6, 34, 1, 1, 7, 10, 6, 0, 0, 0, 0, 1, 2, 16, 8, 12>>
            [] PROFILE = "blacklist" -> <<12, 40, 2, 3, 5, 1, 4, 6, 0, 14, 3, 22, 1, 0, 0, 0>>
            [] OTHER -> <<14, 30, 4, 6, 6, 10, 8, 18, 6, 0, 0, 0, 1, 0, 0, 0>>
Ops == <<"conn", "send", "sendclose", "close", "udp", "clock", "burst", "agents", "purge", "list", "unlist", "check", "wait", "round", "sync", "net">>
RECURSIVE Upto(_)
Upto(k) == IF k = 0 THEN 0 ELSE Weight[k] + Upto(k - 1)
Drawn(w) == Ops[CHOOSE k \in 1..Len(Ops) : w <= Upto(k) /\ w > Upto(k - 1)]
Step == \E what \in {Drawn(RandomElement(1..Upto(Len(Ops))))} :
  IF conns = {} /\ what \in {"send", "sendclose", "close", "burst"} THEN (IF next < 10 THEN Conn ELSE Udp)
  ELSE IF net = "up" THEN (IF RandomElement(1..2) = 1 THEN Wait ELSE Round) \* (a round may or may not be late enough)
  ELSE CASE what = "conn" -> (IF next < 10 THEN Conn ELSE Udp) [] what = "send" -> Send [] what = "sendclose" -> SendClose [] what = "close" -> Close
         [] what = "udp" -> Udp [] what = "clock" -> Clock
         [] what = "burst" -> (IF \A i \in conns : held[i] = <<>> THEN (IF fw > 0 /\ net = "live" /\ RandomElement(1..2) = 1 THEN Flushes ELSE Burst) ELSE Send)
         [] what = "agents" -> Agents [] what = "purge" -> Purge [] what = "list" -> List
         [] what = "unlist" -> (IF file THEN Unlist ELSE List)
         [] what = "check" -> Check [] what = "wait" -> Wait [] what = "round" -> Round [] what = "sync" -> Sync
         [] OTHER -> (IF net = "live" THEN (IF fw = 0 THEN Clock ELSE IF ops[Len(ops)].o \in {"round", "sync"} THEN Break ELSE Sync)
                      ELSE IF net = "down" THEN Up ELSE Wait)
Done == PrintT("VPGEN " \o ToJson(ops)) /\ Emit([o |-> "end"]) /\ UNCHANGED <<fw, now, conns, held, next, net, id, stamp, file>>
\* the last things: connections are made again, and what was left goes out; agents are listed
Ending(k) == IF fw > 0 THEN (IF net = "down" THEN Up ELSE IF net = "up" THEN Wait ELSE IF k = 1 THEN Sync ELSE Round)
           ELSE IF PROFILE = "ingest" THEN Udp ELSE IF k = 1 THEN Check ELSE Agents
Next == IF Len(ops) < DEPTH - 4 THEN Step
        ELSE IF Len(ops) < DEPTH THEN Ending(DEPTH - Len(ops))
        ELSE Len(ops) = DEPTH /\ Done
Spec == Init /\ [][Next]_vars
=============================================================================
