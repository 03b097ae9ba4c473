------------------------------ MODULE MCForward -----------------------------
(* How an agent forwards: samples are collected, rounds take what was         *)
(* collected and write it to one of the connections, connections write what   *)
(* they have in the order given, break and are made again; a flush asks for   *)
(* a round and is answered when the data has been written.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS NS, NC, NF, NB, ATOMIC, EARLIER, IDENT, ONE
VARIABLES next, pend, taken, out, wr, total, done, up, sent, lost, flush, answered, breaks
vars == <<next, pend, taken, out, wr, total, done, up, sent, lost, flush, answered, breaks>>
Conns == 1..NC
MaxTaken == IF ONE THEN 1 ELSE 2
Id == 0  \* stands for the identification
Init == /\ next = 1 /\ pend = {} /\ taken = <<>> /\ out = [c \in Conns |-> <<>>] /\ wr = [c \in Conns |-> <<>>]
        /\ total = [c \in Conns |-> 0] /\ done = [c \in Conns |-> 0] /\ up = [c \in Conns |-> FALSE]
        /\ sent = [c \in Conns |-> <<>>] /\ lost = {} /\ flush = <<>> /\ answered = {} /\ breaks = 0
Sample == next <= NS /\ pend' = pend \cup {next} /\ next' = next + 1
          /\ UNCHANGED <<taken, out, wr, total, done, up, sent, lost, flush, answered, breaks>>
\* a round (f = 0: by the timer; otherwise for flush f) takes what is there
Take(f) == /\ taken' = Append(taken, [f |-> f, b |-> pend]) /\ pend' = (IF ATOMIC THEN {} ELSE pend)
           /\ UNCHANGED <<next, out, wr, total, done, up, sent, lost, answered, breaks>>
Round == Len(taken) < MaxTaken /\ pend # {} /\ Take(0) /\ UNCHANGED flush
Flush == Len(flush) < NF /\ Len(taken) < MaxTaken /\ Take(Len(flush) + 1)
         /\ flush' = Append(flush, [need |-> 1..(next - 1), ready |-> FALSE, at |-> [c \in Conns |-> 0]])
\* and writes it (one round after the other)
Put == \E k \in 1..Len(taken) : \E c \in Conns :
  LET t == taken[k]
      q == SetToSeq(t.b)
      n == [total EXCEPT ![c] = @ + Len(q)]
  IN /\ out' = [out EXCEPT ![c] = @ \o q] /\ total' = n
     /\ taken' = RemoveAt(taken, k)
     /\ pend' = (IF ATOMIC THEN pend ELSE pend \ t.b)
     /\ flush' = (IF t.f = 0 THEN flush ELSE [flush EXCEPT ![t.f] =
          [@ EXCEPT !.ready = TRUE, !.at = IF EARLIER THEN n ELSE [d \in Conns |-> IF d = c THEN n[c] ELSE 0]]])
     /\ UNCHANGED <<next, wr, done, up, sent, lost, answered, breaks>>
Connect(c) == ~up[c] /\ up' = [up EXCEPT ![c] = TRUE] /\ out' = [out EXCEPT ![c] = IF IDENT THEN <<Id>> \o @ ELSE @ \o <<Id>>]
              /\ sent' = [sent EXCEPT ![c] = Append(@, <<>>)]
              /\ UNCHANGED <<next, pend, taken, wr, total, done, lost, flush, answered, breaks>>
Break(c) == /\ up[c] /\ breaks < NB /\ breaks' = breaks + 1 /\ up' = [up EXCEPT ![c] = FALSE]
            /\ lost' = lost \cup Range(wr[c]) /\ done' = [done EXCEPT ![c] = @ + Len(SelectSeq(wr[c], LAMBDA x : x # Id))]
            /\ wr' = [wr EXCEPT ![c] = <<>>] /\ out' = [out EXCEPT ![c] = SelectSeq(@, LAMBDA x : x # Id)]
            /\ UNCHANGED <<next, pend, taken, total, sent, flush, answered>>
Write(c) == up[c] /\ wr[c] = <<>> /\ out[c] # <<>> /\ wr' = [wr EXCEPT ![c] = out[c]] /\ out' = [out EXCEPT ![c] = <<>>]
            /\ UNCHANGED <<next, pend, taken, total, done, up, sent, lost, flush, answered, breaks>>
Done(c) == /\ wr[c] # <<>> /\ sent' = [sent EXCEPT ![c] = [@ EXCEPT ![Len(@)] = @ \o wr[c]]]
           /\ done' = [done EXCEPT ![c] = @ + Len(SelectSeq(wr[c], LAMBDA x : x # Id))] /\ wr' = [wr EXCEPT ![c] = <<>>]
           /\ UNCHANGED <<next, pend, taken, out, total, up, lost, flush, answered, breaks>>
Answer == \E f \in DOMAIN flush \ answered : flush[f].ready /\ (\A c \in Conns : done[c] >= flush[f].at[c]) /\ answered' = answered \cup {f}
          /\ UNCHANGED <<next, pend, taken, out, wr, total, done, up, sent, lost, flush, breaks>>
Next == Sample \/ Round \/ Flush \/ Put \/ Answer \/ \E c \in Conns : Connect(c) \/ Break(c) \/ Write(c) \/ Done(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Put) /\ WF_vars(Answer) /\ \A c \in Conns : WF_vars(Connect(c)) /\ WF_vars(Write(c)) /\ WF_vars(Done(c))
\* ---- what must hold
Flat(sqs) == FlattenSeq(sqs)
Arrived == UNION {Range(Flat(sent[c])) : c \in Conns} \ {Id}
Times(x) == LET RECURSIVE Count(_, _)
                Count(c, k) == IF c = 0 THEN 0 ELSE Cardinality({j \in DOMAIN Flat(sent[c]) : Flat(sent[c])[j] = x}) + Count(c - 1, k)
            IN Count(NC, 0)
AtMostOnce == \A x \in 1..NS : Times(x) <= 1
Pieces == UNION {Range(out[c]) \cup Range(wr[c]) : c \in Conns} \cup UNION {taken[k].b : k \in DOMAIN taken} \cup pend
NothingVanishes == 1..(next - 1) \subseteq Arrived \cup lost \cup Pieces
\* a connection begins with the identification, which comes only once
IdentFirst == \A c \in Conns : \A k \in DOMAIN sent[c] : LET s == sent[c][k] IN \A j \in DOMAIN s : (s[j] = Id) <=> (j = 1)
\* without a break nothing is lost
LostOnlyByBreaks == lost # {} => breaks > 0
FlushMeansWritten == \A f \in answered : flush[f].need \subseteq Arrived \cup lost
\* every flush is answered
Answered == \A f \in 1..NF : (Len(flush) >= f) ~> (f \in answered)
=============================================================================
