-------------------------------- MODULE MCLoop -------------------------------
(* Several threads add to a statistic through handles that share a record,    *)
(* while others sample it; handles are copied and destroyed.                  *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS ADDERS, SAMPLERS, K, ROUNDS, ATOMIC, SEIZE, KEEP
VARIABLES agg, pc, tmp, left, alive, spc, stmp, rounds, told, given
vars == <<agg, pc, tmp, left, alive, spc, stmp, rounds, told, given>>
Init == /\ agg = 0 /\ pc = [a \in ADDERS |-> "idle"] /\ tmp = [a \in ADDERS |-> 0] /\ left = [a \in ADDERS |-> K] /\ alive = [a \in ADDERS |-> TRUE]
        /\ spc = [s \in SAMPLERS |-> "idle"] /\ stmp = [s \in SAMPLERS |-> 0] /\ rounds = [s \in SAMPLERS |-> ROUNDS] /\ told = 0 /\ given = 0
Samp == <<spc, stmp, rounds, told>>
AddAtOnce(a) == /\ ATOMIC /\ alive[a] /\ left[a] > 0 /\ agg' = agg + 1 /\ given' = given + 1 /\ left' = [left EXCEPT ![a] = @ - 1] /\ UNCHANGED <<pc, tmp, alive, Samp>>
AddRead(a) == /\ ~ATOMIC /\ alive[a] /\ left[a] > 0 /\ pc[a] = "idle" /\ tmp' = [tmp EXCEPT ![a] = agg] /\ pc' = [pc EXCEPT ![a] = "write"] /\ UNCHANGED <<agg, left, alive, Samp, given>>
AddWrite(a) == /\ pc[a] = "write" /\ agg' = tmp[a] + 1 /\ given' = given + 1 /\ left' = [left EXCEPT ![a] = @ - 1] /\ pc' = [pc EXCEPT ![a] = "idle"] /\ UNCHANGED <<tmp, alive, Samp>>
\* destroying a handle: what was added stays
Destroy(a) == /\ alive[a] /\ pc[a] = "idle" /\ left[a] < K /\ alive' = [alive EXCEPT ![a] = FALSE] /\ agg' = (IF KEEP THEN agg ELSE 0) /\ UNCHANGED <<pc, tmp, left, Samp, given>>
Adding == <<pc, tmp, left, alive, given>>
TakeAtOnce(s) == /\ SEIZE = "swap" /\ rounds[s] > 0 /\ told' = told + agg /\ agg' = 0 /\ rounds' = [rounds EXCEPT ![s] = @ - 1] /\ UNCHANGED <<spc, stmp, Adding>>
TakeRead(s) == /\ SEIZE # "swap" /\ rounds[s] > 0 /\ spc[s] = "idle" /\ stmp' = [stmp EXCEPT ![s] = agg] /\ spc' = [spc EXCEPT ![s] = "take"] /\ UNCHANGED <<agg, rounds, told, Adding>>
TakeRest(s) == /\ spc[s] = "take" /\ told' = told + stmp[s] /\ agg' = (IF SEIZE = "zero" THEN 0 ELSE agg - stmp[s]) /\ rounds' = [rounds EXCEPT ![s] = @ - 1]
               /\ spc' = [spc EXCEPT ![s] = "idle"] /\ UNCHANGED <<stmp, Adding>>
Next == \/ \E a \in ADDERS : AddAtOnce(a) \/ AddRead(a) \/ AddWrite(a) \/ Destroy(a)
        \/ \E s \in SAMPLERS : TakeAtOnce(s) \/ TakeRead(s) \/ TakeRest(s)
Spec == Init /\ [][Next]_vars
Quiet == \A a \in ADDERS : pc[a] = "idle"
NoneLost == Quiet => told + agg = given
NotTwice == told <= given
=============================================================================
