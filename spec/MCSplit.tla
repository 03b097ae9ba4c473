------------------------------- MODULE MCSplit ------------------------------
(* One session byte by byte: what each end has sent and not yet been read is  *)
(* in flight; the splitter looks at who has something and serves them.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS NT, K, FIRST, DRAIN, TELL
VARIABLES sent, flight, got, gone, told, ready, up
vars == <<sent, flight, got, gone, told, ready, up>>
Ends == 0..NT
Init == /\ sent = [e \in Ends |-> 0] /\ flight = [e \in Ends |-> <<>>] /\ got = [e \in Ends |-> <<>>] /\ gone = {} /\ told = {} /\ ready = {} /\ up = TRUE
\* an end sends a byte (its own number and the place), or goes away
Send(e) == e \notin gone /\ sent[e] < K /\ sent' = [sent EXCEPT ![e] = @ + 1] /\ flight' = [flight EXCEPT ![e] = Append(@, <<e, sent[e] + 1>>)] /\ UNCHANGED <<got, gone, told, ready, up>>
Go(e) == e \notin gone /\ gone' = gone \cup {e} /\ UNCHANGED <<sent, flight, got, told, ready, up>>
Has(e) == flight[e] # <<>> \/ e \in gone
\* the splitter asks who has something, then serves one after the other
Ask == up /\ ready = {} /\ (\E e \in Ends : Has(e)) /\ ready' = {e \in Ends : Has(e)} /\ UNCHANGED <<sent, flight, got, gone, told, up>>
Next1 == CHOOSE e \in ready : \A f \in ready : e <= f
Others(n) == {e \in Ends : e \notin gone}
Forward(e, bytes) == IF e = 0 THEN [k \in Ends |-> IF k = 0 THEN got[k] ELSE got[k] \o bytes]
                     ELSE IF e = 1 \/ (~FIRST /\ 1 \notin ready /\ \A f \in ready : f >= e) THEN [got EXCEPT ![0] = @ \o bytes] ELSE got
Serve == /\ up /\ ready # {}
         /\ LET e == Next1
            IN IF flight[e] # <<>> /\ (DRAIN \/ e \notin gone)
               THEN \E n \in 1..Len(flight[e]) : /\ flight' = [flight EXCEPT ![e] = SubSeq(@, n + 1, Len(@))] /\ got' = Forward(e, SubSeq(flight[e], 1, n))
                                                 /\ ready' = ready \ {e} /\ UNCHANGED <<sent, gone, told, up>>
               ELSE IF TELL THEN up' = FALSE /\ told' = Ends /\ UNCHANGED <<sent, flight, got, gone, ready>>
               ELSE told' = told \cup {e} /\ ready' = ready \ {e} /\ UNCHANGED <<sent, flight, got, gone, up>>
Next == (\E e \in Ends : Send(e) \/ Go(e)) \/ Ask \/ Serve
Spec == Init /\ [][Next]_vars /\ WF_vars(Ask) /\ WF_vars(Serve)
Stream(e, n) == [j \in 1..n |-> <<e, j>>]
\* ---- what must hold
ClientsBytes == \A k \in 1..NT : got[k] = Stream(0, Len(got[k]))
FirstOnly == got[0] = Stream(1, Len(got[0]))
LastBytes == told = Ends /\ gone = {0} => \A k \in 1..NT : Len(got[k]) = sent[0]
AllReached == <>[](gone # {} => told = Ends)
Arrives == \A n \in 1..K : (sent[0] >= n) ~> (gone # {} \/ \A k \in 1..NT : Len(got[k]) >= n)
=============================================================================
