------------------------------- MODULE MCTrail ------------------------------
(* A small trailing file, every order of samples and every gap: what is       *)
(* written is symbolic (how many samples, and the value of which interval     *)
(* they were averaged with).                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions, FiniteSetsExt
CONSTANTS N, SEASON, TMAX, OPS, TIMECHECK, GUARD, CLOSE
VARIABLES last, pend, slots, open, ops, given, out, gone, touched
vars == <<last, pend, slots, open, ops, given, out, gone, touched>>
None == <<>>
Nothing == <<None, None, None>>
Init == last = 0 /\ pend = Nothing /\ slots = [k \in 0..(N - 1) |-> None] /\ open = TRUE /\ ops = 0 /\ given = 0 /\ out = 0 /\ gone = 0 /\ touched = {}
In(i, la) == i <= la /\ i > la - N
\* writing out the oldest: [slots, out, gone, touched]
Out(b, la) ==
  IF b = None THEN [s |-> slots, o |-> 0, g |-> 0, x |-> {}]
  ELSE IF ~In(b[1], la) /\ GUARD THEN [s |-> slots, o |-> 0, g |-> b[2], x |-> {}]
  ELSE LET v == slots[(b[1] - SEASON) % N]
           prior == IF v = None \/ (TIMECHECK /\ v[1] # b[1] - SEASON) THEN None ELSE <<v[1]>>
       IN [s |-> [slots EXCEPT ![b[1] % N] = <<b[1], b[2], prior>>], o |-> b[2], g |-> 0, x |-> {<<b[1], la>>}]
Do(r) == slots' = r.s /\ out' = out + r.o /\ gone' = gone + r.g /\ touched' = touched \cup r.x
Sample(i) ==
  /\ open /\ ops < OPS /\ ops' = ops + 1
  /\ LET la == IF i > last THEN i ELSE last
         has == {j \in 1..3 : pend[j] # None /\ pend[j][1] = i}
     IN /\ last' = la
        /\ IF ~In(i, la) THEN UNCHANGED <<pend, slots, given, out, gone, touched>>
           ELSE /\ given' = given + 1
                /\ IF has # {} THEN LET j == CHOOSE k \in has : TRUE IN pend' = [pend EXCEPT ![j][2] = @ + 1] /\ UNCHANGED <<slots, out, gone, touched>>
                   ELSE Do(Out(pend[1], la)) /\ pend' = <<pend[2], pend[3], <<i, 1>>>>
  /\ UNCHANGED open
Flush == open /\ ops < OPS /\ ops' = ops + 1 /\ Do(Out(pend[1], last)) /\ pend' = <<pend[2], pend[3], None>> /\ UNCHANGED <<last, open, given>>
Closing == /\ ops = OPS /\ open /\ IF CLOSE /\ pend # Nothing THEN Do(Out(pend[1], last)) /\ pend' = <<pend[2], pend[3], None>> /\ UNCHANGED open
                                   ELSE open' = FALSE /\ pend' = Nothing /\ UNCHANGED <<slots, out, gone, touched>>
           /\ UNCHANGED <<last, ops, given>>
Next == (\E i \in 0..TMAX : Sample(i)) \/ Flush \/ Closing
Spec == Init /\ [][Next]_vars
\* ---- what must hold
Pending == FoldSeq(LAMBDA b, n : n + (IF b = None THEN 0 ELSE b[2]), 0, pend)
NothingLost == given = out + gone + Pending
OwnSeason == \A k \in DOMAIN slots : slots[k] # None /\ slots[k][3] # None => slots[k][3][1] = slots[k][1] - SEASON
OwnPlace == \A k \in DOMAIN slots : slots[k] # None => slots[k][1] % N = k
Inside == \A x \in touched : In(x[1], x[2])
GoneOnlyByGap == gone > 0 => last >= N
=============================================================================
