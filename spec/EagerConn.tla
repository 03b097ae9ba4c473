------------------------------ MODULE EagerConn -----------------------------
(* A connection that delivers lines to a peer which comes and goes: what may  *)
(* arrive, on which connection, and what may be lost.                         *)
(* S.q     lines handed over and not seen to arrive: [id, len], ids increase  *)
(* S.may   lines up to this id may have been lost: they were on their way     *)
(*         when a connection ended, or among the oldest when the limit was    *)
(*         exceeded                                                           *)
(* S.conn  number of the newest connection, -1: none yet; S.said: has it      *)
(*         begun (with the identification)                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
NewConn(max, listening) == [max |-> max, q |-> <<>>, may |-> 0, conn |-> 0 - 1, said |-> FALSE, live |-> FALSE, listening |-> listening,
                            stalled |-> FALSE, longest |-> 0, gone |-> {}]
RECURSIVE Size(_)
Size(q) == IF q = <<>> THEN 0 ELSE q[1].len + Size(Tail(q))
\* the shortest suffix of n bytes or more
RECURSIVE Beyond(_, _)
Beyond(q, n) == IF q = <<>> \/ Size(Tail(q)) < n THEN q ELSE Beyond(Tail(q), n)
\* id of the newest line which need not be kept for that
OldestKept(q, n) == IF Size(q) < n THEN 0 ELSE Beyond(q, n)[1].id - 1
Larger(a, b) == IF a > b THEN a ELSE b
\* one call with some lines: over the limit, the older half may go, in whole lines
WriteOne(S, ls) ==
  LET w == Larger(S.longest, Max({0} \cup {ls[j].len : j \in 1..Len(ls)}))
      over == Size(S.q) > S.max
      keep == (S.max \div 2) - w
  IN [S EXCEPT !.q = @ \o ls, !.longest = w,
               !.may = IF over THEN Larger(@, IF keep <= 0 THEN S.q[Len(S.q)].id ELSE OldestKept(S.q, keep)) ELSE @]
RECURSIVE Write(_, _)
Write(S, calls) == IF calls = <<>> THEN S ELSE Write(WriteOne(S, calls[1]), Tail(calls))
\* the connection ends: everything that was on its way may be lost, which leaves out the last n bytes
End(S, n) == [S EXCEPT !.live = FALSE, !.stalled = FALSE,
                       !.may = IF S.q = <<>> THEN @ ELSE IF n = 0 THEN S.q[Len(S.q)].id ELSE Larger(@, OldestKept(S.q, n))]
\* what arrives, one piece after the other
ArriveOK(S, g) ==
  IF g.c < S.conn \/ g.c \in S.gone THEN FALSE
  ELSE LET first == g.c > S.conn \/ ~S.said
       IN IF ~g.whole THEN TRUE
          ELSE IF g.x = 0 THEN first
          ELSE /\ ~first
               /\ \E j \in 1..Len(S.q) : S.q[j].id = g.x /\ \A k \in 1..(j - 1) : S.q[k].id <= S.may
Arrive(S, g) ==
  LET T == [S EXCEPT !.conn = g.c, !.said = IF g.c > S.conn THEN g.x = 0 ELSE @ \/ g.x = 0]
  IN IF ~g.whole \/ g.x <= 0 THEN T ELSE [T EXCEPT !.q = SelectSeq(@, LAMBDA y : y.id > g.x)]
RECURSIVE Arrivals(_, _)
Arrivals(S, gs) == IF gs = <<>> THEN [ok |-> TRUE, S |-> S, at |-> <<>>]
                   ELSE IF ~ArriveOK(S, gs[1]) THEN [ok |-> FALSE, S |-> S, at |-> gs[1]]
                   ELSE Arrivals(Arrive(S, gs[1]), Tail(gs))
\* a suffix of n bytes, if there is one
RECURSIVE Suffix(_, _)
Suffix(q, n) == IF q = <<>> THEN {} ELSE IF Size(q) = n THEN {q} ELSE IF Size(q) < n THEN {} ELSE Suffix(Tail(q), n)
Kept(q, n) == IF n = 0 THEN {<<>>} ELSE Suffix(q, n)
=============================================================================
