------------------------------ MODULE Splitter -----------------------------
(* Sessions of the splitter: what the client sends goes to every target, what *)
(* the first target sends goes to the client; one end's end is everybody's.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
\* a session: how much each end has sent (1: the client, k + 1: target k), and which of them do not read
NewSession(nt) == [sent |-> [k \in 1..(nt + 1) |-> 0], stalled |-> {}]
Sent(s, k, n) == [s EXCEPT !.sent[k + 1] = @ + n]
\* what an end is to receive in all
Due(s, k) == IF k = 0 THEN s.sent[2] ELSE s.sent[1]
\* what an end that is still there has received: e = [got, ok, ended]
EndOK(s, k, e) == e.ok /\ ~e.ended /\ (IF s.stalled = {} THEN e.got = Due(s, k) ELSE e.got <= Due(s, k))
SessionOK(s, es) == \A j \in 1..Len(es) : EndOK(s, j - 1, es[j])
\* end k has sent the last of its data and gone: the others have all of it, and have been told
LastOK(s, k, es) == \A j \in 1..Len(es) : j # k + 1 => /\ es[j].ok /\ es[j].ended
                                                       /\ es[j].got <= Due(s, j - 1)
                                                       /\ (s.stalled = {} /\ (k = 0 \/ (k = 1 /\ j = 1)) => es[j].got = Due(s, j - 1))
=============================================================================
