------------------------------- MODULE MCConn -------------------------------
(* How a connection delivers lines (of two bytes each): what is to go out is  *)
(* queued, taken as a block and written byte by byte; connections break at    *)
(* any byte and are made again; over the limit the older half of the queue is *)
(* dropped.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS NL, NB, LIMIT, IDENT, LATE, WHOLE, FORGET
VARIABLES next, out, blk, pos, state, sent, lost, breaks
vars == <<next, out, blk, pos, state, sent, lost, breaks>>
Id == 0
Bytes(i) == <<<<i, 1>>, <<i, 2>>>>
Init == next = 1 /\ out = <<>> /\ blk = <<>> /\ pos = 0 /\ state = "away" /\ sent = <<>> /\ lost = {} /\ breaks = 0
RECURSIVE PastHalf(_, _)
\* where the older half ends: at the end of a line
PastHalf(s, k) == IF k >= Len(s) \/ s[k][2] = 2 THEN k ELSE PastHalf(s, k + 1)
Pruned == IF Len(out) <= LIMIT THEN out ELSE SubSeq(out, (IF WHOLE THEN PastHalf(out, (LIMIT \div 2) + 1) ELSE (LIMIT \div 2) + 1) + 1, Len(out))
Ids(s) == {s[j][1] : j \in 1..Len(s)}
Hand == /\ next <= NL /\ next' = next + 1 /\ out' = Pruned \o Bytes(next) /\ lost' = lost \cup (Ids(out) \ Ids(Pruned))
        /\ UNCHANGED <<blk, pos, state, sent, breaks>>
\* the system has made the connection, the program does not know yet
Open == state = "away" /\ state' = "open" /\ sent' = Append(sent, <<>>) /\ UNCHANGED <<next, out, blk, pos, lost, breaks>>
Known == /\ state = "open" /\ state' = "up"
         /\ LET q == IF IDENT THEN Bytes(Id) \o out ELSE out \o Bytes(Id)
            IN IF blk = <<>> THEN blk' = q /\ out' = <<>> ELSE blk' = blk /\ out' = q
         /\ UNCHANGED <<next, pos, sent, lost, breaks>>
Begin == /\ (state = "up" \/ (~LATE /\ state = "open")) /\ blk = <<>> /\ out # <<>>
         /\ blk' = out /\ out' = <<>> /\ pos' = 0 /\ UNCHANGED <<next, state, sent, lost, breaks>>
Byte == /\ blk # <<>> /\ state # "away" /\ pos < Len(blk) /\ pos' = pos + 1
        /\ sent' = [sent EXCEPT ![Len(sent)] = Append(@, blk[pos + 1])] /\ UNCHANGED <<next, out, blk, state, lost, breaks>>
Written == blk # <<>> /\ pos = Len(blk) /\ blk' = <<>> /\ pos' = 0 /\ UNCHANGED <<next, out, state, sent, lost, breaks>>
Break == /\ state # "away" /\ breaks < NB /\ breaks' = breaks + 1 /\ state' = "away" /\ blk' = <<>> /\ pos' = 0
         /\ out' = (IF FORGET THEN out ELSE blk \o out) /\ lost' = lost \cup (IF FORGET THEN Ids(blk) ELSE {})
         /\ UNCHANGED <<next, sent>>
Next == Hand \/ Open \/ Known \/ Begin \/ Byte \/ Written \/ Break
Spec == Init /\ [][Next]_vars /\ WF_vars(Open) /\ WF_vars(Known) /\ WF_vars(Begin) /\ WF_vars(Byte) /\ WF_vars(Written)
\* ---- what must hold
IdentFirst == \A k \in DOMAIN sent : \A j \in DOMAIN sent[k] : (j <= 2) <=> sent[k][j][1] = Id
WholeLines == \A k \in DOMAIN sent : \A j \in DOMAIN sent[k] : sent[k][j][2] = (IF j % 2 = 1 THEN 1 ELSE 2) /\ (j % 2 = 0 => sent[k][j][1] = sent[k][j - 1][1])
Starts == SelectSeq(FlattenSeq(sent), LAMBDA b : b[2] = 1 /\ b[1] # Id)
AtMostOnce == \A j, k \in DOMAIN Starts : j # k => Starts[j] # Starts[k]
InOrder == \A j \in 2..Len(Starts) : Starts[j][1] > Starts[j - 1][1]
NothingVanishes == \A i \in 1..(next - 1) : i \in lost \cup Ids(out) \cup Ids(blk) \cup {Starts[j][1] : j \in DOMAIN Starts}
LostOnlySo == breaks = 0 /\ 2 * (next - 1) <= LIMIT => lost = {}
Bounded == Len(out) <= LIMIT + 4
Delivered == <>[](out = <<>> /\ blk = <<>> /\ state = "up")
=============================================================================
