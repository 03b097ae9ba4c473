------------------------------- MODULE MCHttp -------------------------------
(* How requests for several counters are answered: a request's bytes arrive,  *)
(* its counters are looked up and read each in its own turn by any thread,     *)
(* each adding its entry (of three parts) to the one answer; whoever is last   *)
(* completes it. Requests share the counters, and connections may end.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS NR, BYTES, NTHREADS, LOCK, CATCH, BYNAME, LAST
VARIABLES arrived, phase, todo, run, left, lock, buf, replies
vars == <<arrived, phase, todo, run, left, lock, buf, replies>>
R == 1..NR
\* a and b name the same counter; the counter of c cannot be read; n is unknown
Want == [r \in R |-> IF r = 1 THEN {"a", "b", "n"} ELSE {"a", "c", "d"}]
Ctr(k) == CASE k \in {"a", "b"} -> "ab" [] k = "n" -> "" [] OTHER -> k
Jobs(r) == IF BYNAME THEN {k \in Want[r] : Ctr(k) # ""} ELSE {CHOOSE k \in Want[r] : Ctr(k) = c : c \in {Ctr(k) : k \in Want[r]} \ {""}}
Init == /\ arrived = [r \in R |-> 0] /\ phase = [r \in R |-> "reading"] /\ todo = {} /\ run = [t \in 1..NTHREADS |-> <<>>]
        /\ left = [r \in R |-> 0] /\ lock = [r \in R |-> 0] /\ buf = [r \in R |-> <<>>] /\ replies = [r \in R |-> <<>>]
Arrive(r) == phase[r] = "reading" /\ arrived[r] < BYTES /\ arrived' = [arrived EXCEPT ![r] = @ + 1] /\ UNCHANGED <<phase, todo, run, left, lock, buf, replies>>
Look(r) == /\ phase[r] = "reading" /\ arrived[r] = BYTES /\ phase' = [phase EXCEPT ![r] = "working"]
           /\ buf' = [buf EXCEPT ![r] = SetToSeq({<<k, 9>> : k \in {x \in Want[r] : Ctr(x) = ""}})]
           /\ todo' = todo \cup {<<r, k>> : k \in Jobs(r)} /\ left' = [left EXCEPT ![r] = Cardinality(Jobs(r))]
           /\ UNCHANGED <<arrived, run, lock, replies>>
\* no two at one counter at a time
Busy(k) == \E t \in 1..NTHREADS : run[t] # <<>> /\ Ctr(run[t][2]) = Ctr(k)
Take(t) == /\ run[t] = <<>> /\ \E j \in todo : ~Busy(j[2]) /\ (LOCK => lock[j[1]] = 0) /\ todo' = todo \ {j} /\ run' = [run EXCEPT ![t] = <<j[1], j[2], 0>>]
                                  /\ lock' = [lock EXCEPT ![j[1]] = t]
           /\ UNCHANGED <<arrived, phase, left, buf, replies>>
Write(t) == /\ run[t] # <<>> /\ run[t][3] < 3
            /\ LET r == run[t][1] k == run[t][2]
               IN IF k = "c" THEN IF CATCH THEN buf' = [buf EXCEPT ![r] = Append(@, <<k, 9>>)] /\ run' = [run EXCEPT ![t][3] = 3] /\ lock' = [lock EXCEPT ![r] = 0]
                                  ELSE buf' = buf /\ run' = [run EXCEPT ![t] = <<>>] /\ lock' = [lock EXCEPT ![r] = 0]
                  ELSE /\ buf' = [buf EXCEPT ![r] = Append(@, <<k, run[t][3]>>)] /\ run' = [run EXCEPT ![t][3] = @ + 1]
                       /\ lock' = IF run[t][3] = 2 THEN [lock EXCEPT ![r] = 0] ELSE lock
            /\ UNCHANGED <<arrived, phase, todo, left, replies>>
Finish(t) == /\ run[t] # <<>> /\ run[t][3] = 3
             /\ LET r == run[t][1]
                IN /\ left' = [left EXCEPT ![r] = @ - 1]
                   /\ replies' = IF left[r] = 1 \/ (~LAST /\ todo = {}) THEN [replies EXCEPT ![r] = Append(@, buf[r])] ELSE replies
             /\ run' = [run EXCEPT ![t] = <<>>] /\ UNCHANGED <<arrived, phase, todo, buf, lock>>
Next == (\E r \in R : Arrive(r) \/ Look(r)) \/ (\E t \in 1..NTHREADS : Take(t) \/ Write(t) \/ Finish(t))
Spec == Init /\ [][Next]_vars /\ (\A r \in R : WF_vars(Arrive(r)) /\ WF_vars(Look(r))) /\ (\A t \in 1..NTHREADS : WF_vars(Take(t)) /\ WF_vars(Write(t)) /\ WF_vars(Finish(t)))
\* ---- what must hold
Once == \A r \in R : Len(replies[r]) <= 1

IsHead(x) == x[2] \in {0, 9}
\* entries whole, one for each key
Shape(b) == \A j \in 1..Len(b) : b[j][2] # 9 => (b[j][2] > 0 => j > 1 /\ b[j - 1] = <<b[j][1], b[j][2] - 1>>) /\ (b[j][2] < 2 => j < Len(b) /\ b[j + 1] = <<b[j][1], b[j][2] + 1>>)
Whole == \A r \in R : \A j \in 1..Len(replies[r]) : Shape(replies[r][j])
KeysIn(b) == [j \in 1..Len(SelectSeq(b, IsHead)) |-> SelectSeq(b, IsHead)[j][1]]
EachKey == \A r \in R : \A j \in 1..Len(replies[r]) : LET ks == KeysIn(replies[r][j]) IN {ks[i] : i \in 1..Len(ks)} = Want[r] /\ Len(ks) = Cardinality(Want[r])
Answered == \A r \in R : <>(replies[r] # <<>>)
=============================================================================
