------------------------------ MODULE MCStore -------------------------------
(* The store at work: several threads create counters, record, delete, list   *)
(* and flush while handlers run on the counters' strands. What the store      *)
(* promises (C07, C08, C09, C17) against what its parts do, one step for each *)
(* critical section.                                                          *)
(*   GUARD: creating a counter and replacing the list of keys exclude each    *)
(*          other;  PURGED: a dying counter stays in the map until its files  *)
(*          are gone. Without either of the two an invariant fails.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NAMES, ACTORS, GUARD, PURGED, MAXREC, MAXDEL, MAXFLUSH
VARIABLES map,      \* name -> incarnation in the map (0: none)
          ctr,      \* incarnation -> [n, dead, purged, mem, disk (files of that incarnation hold), gone]
          keys,     \* the list of keys
          files,    \* name -> incarnation owning the files (0: none)
          baks,     \* set of incarnations moved to the backup
          strand,   \* incarnation -> queue of handlers
          pc, arg,  \* actors
          scan, wa, refreshes, \* refresh: names still to look at, new list, queued
          flushes,  \* set of [q: queue of incarnations, promise, done]
          promised, \* what was promised and answered: incarnation -> amount
          lock, recs, delsLeft, flushLeft, pend
vars == <<map, ctr, keys, files, baks, strand, pc, arg, scan, wa, refreshes, flushes, promised, lock, recs, delsLeft, flushLeft, pend>>
NoScan == {}
Init ==
  /\ map = [n \in NAMES |-> 0] /\ ctr = <<>> /\ keys = {} /\ files = [n \in NAMES |-> 0] /\ baks = {}
  /\ strand = <<>> /\ pc = [a \in ACTORS |-> "idle"] /\ arg = [a \in ACTORS |-> CHOOSE n \in NAMES : TRUE]
  /\ scan = NoScan /\ wa = {} /\ refreshes = 0 /\ flushes = <<>> /\ promised = <<>> /\ lock = "free"
  /\ recs = 0 /\ delsLeft = MAXDEL /\ flushLeft = MAXFLUSH /\ pend = "no"
Live(n) == map[n] # 0 /\ ~ctr[map[n]].dead
Post(i, w) == strand' = [strand EXCEPT ![i] = Append(@, w)]

\* ---- recording: find or create, then queue the sample
Begin(a) == /\ pc[a] = "idle" /\ recs < MAXREC /\ recs' = recs + 1
            /\ \E n \in NAMES : arg' = [arg EXCEPT ![a] = n]
            /\ pc' = [pc EXCEPT ![a] = "find"]
            /\ UNCHANGED <<map, ctr, keys, files, baks, strand, scan, wa, refreshes, flushes, promised, lock, delsLeft, flushLeft, pend>>
Find(a) == LET n == arg[a] IN
  /\ pc[a] = "find"
  /\ IF map[n] # 0
     THEN /\ (IF ctr[map[n]].dead THEN UNCHANGED strand ELSE Post(map[n], "rec")) /\ pc' = [pc EXCEPT ![a] = "idle"]
          /\ ctr' = (IF ctr[map[n]].dead THEN ctr ELSE [ctr EXCEPT ![map[n]].asked = @ + 1]) /\ UNCHANGED lock
     ELSE /\ (GUARD => lock = "free") /\ lock' = (IF GUARD THEN a ELSE lock) /\ pc' = [pc EXCEPT ![a] = "create"] /\ UNCHANGED <<strand, ctr>>
  /\ UNCHANGED <<map, keys, files, baks, arg, scan, wa, refreshes, flushes, promised, recs, delsLeft, flushLeft, pend>>
\* the counter goes into the map, opening what files there are
Create(a) == LET n == arg[a]  i == Len(ctr) + 1 IN
  /\ pc[a] = "create"
  /\ IF map[n] # 0 THEN UNCHANGED <<map, ctr, files, strand>>
     ELSE /\ map' = [map EXCEPT ![n] = i]
          /\ ctr' = Append(ctr, [n |-> n, dead |-> FALSE, purged |-> FALSE, mem |-> 0, disk |-> 0, asked |-> 0])
          /\ files' = [files EXCEPT ![n] = i] /\ strand' = Append(strand, <<>>)
  /\ pc' = [pc EXCEPT ![a] = "key"]
  /\ UNCHANGED <<keys, baks, arg, scan, wa, refreshes, flushes, promised, lock, recs, delsLeft, flushLeft, pend>>
AddKey(a) == /\ pc[a] = "key" /\ keys' = keys \cup {arg[a]} /\ pc' = [pc EXCEPT ![a] = "find"]
             /\ lock' = (IF GUARD THEN "free" ELSE lock)
             /\ UNCHANGED <<map, ctr, files, baks, strand, arg, scan, wa, refreshes, flushes, promised, recs, delsLeft, flushLeft, pend>>

\* ---- deleting: put a dead counter in its place; its files are moved on its strand; then a refresh
Delete(n) == /\ delsLeft > 0 /\ Live(n) /\ delsLeft' = delsLeft - 1
             /\ ctr' = [ctr EXCEPT ![map[n]].dead = TRUE] /\ Post(map[n], "purge")
             /\ UNCHANGED <<map, keys, files, baks, pc, arg, scan, wa, refreshes, flushes, promised, lock, recs, flushLeft, pend>>
\* ---- a handler of a counter's strand
Run(i) == /\ strand[i] # <<>>
          /\ LET w == Head(strand[i]) IN
             /\ \/ /\ w = "rec" /\ ctr' = [ctr EXCEPT ![i].mem = @ + 1] /\ strand' = [strand EXCEPT ![i] = Tail(@)]
                   /\ UNCHANGED <<files, baks, refreshes, flushes, promised>>
                \/ /\ w = "purge"
                   /\ files' = [files EXCEPT ![ctr[i].n] = 0]     \* whoever's they are
                   /\ baks' = baks \cup {i} \cup (IF files[ctr[i].n] \notin {0, i} THEN {files[ctr[i].n]} ELSE {})
                   /\ ctr' = [ctr EXCEPT ![i].purged = TRUE, ![i].disk = ctr[i].mem]
                   /\ strand' = [strand EXCEPT ![i] = Tail(@)] /\ refreshes' = refreshes + 1 /\ UNCHANGED <<flushes, promised>>
                \/ /\ w = "flush"
                   /\ ctr' = [ctr EXCEPT ![i].disk = IF ctr[i].dead THEN @ ELSE ctr[i].mem]
                   /\ strand' = (LET q == flushes[1].q IN
                        IF Len(q) > 1 THEN [j \in DOMAIN strand |-> IF j = i THEN (IF q[2] = i THEN Append(Tail(strand[i]), "flush") ELSE Tail(strand[i]))
                                                                   ELSE IF j = q[2] THEN Append(strand[j], "flush") ELSE strand[j]]
                        ELSE [strand EXCEPT ![i] = Tail(@)])
                   /\ flushes' = (IF Len(flushes[1].q) > 1 THEN [flushes EXCEPT ![1].q = Tail(@)] ELSE <<>>)
                   /\ promised' = (IF Len(flushes[1].q) = 1 THEN flushes[1].promise ELSE promised)
                   /\ UNCHANGED <<files, baks, refreshes>>
          /\ UNCHANGED <<map, keys, pc, arg, scan, wa, lock, recs, delsLeft, flushLeft, pend>>
\* ---- a flush asked for: one counter after the other, each on its strand
Flush == LET order == SelectSeq([j \in 1..Len(ctr) |-> j], LAMBDA j : map[ctr[j].n] = j) IN
  /\ flushLeft > 0 /\ flushes = <<>> /\ order # <<>> /\ flushLeft' = flushLeft - 1
  /\ flushes' = <<[q |-> order, promise |-> [j \in {k \in 1..Len(ctr) : ~ctr[k].dead} |-> ctr[j].asked]]>>
  /\ Post(order[1], "flush")
  /\ UNCHANGED <<map, ctr, keys, files, baks, pc, arg, scan, wa, refreshes, promised, lock, recs, delsLeft, pend>>

\* ---- replacing the list of keys: look at every shard, then exchange
StartRefresh == /\ refreshes > 0 /\ pend = "no" /\ (GUARD => lock = "free") /\ lock' = (IF GUARD THEN "refresh" ELSE lock)
                /\ refreshes' = refreshes - 1 /\ pend' = "scan" /\ scan' = NAMES /\ wa' = {}
                /\ UNCHANGED <<map, ctr, keys, files, baks, strand, pc, arg, flushes, promised, recs, delsLeft, flushLeft>>
Look(n) == /\ pend = "scan" /\ n \in scan /\ scan' = scan \ {n}
           /\ IF map[n] = 0 THEN UNCHANGED <<wa, map>>
              ELSE IF ~ctr[map[n]].dead THEN wa' = wa \cup {n} /\ UNCHANGED map
              ELSE IF PURGED /\ ~ctr[map[n]].purged THEN UNCHANGED <<wa, map>>
              ELSE map' = [map EXCEPT ![n] = 0] /\ UNCHANGED wa
           /\ UNCHANGED <<ctr, keys, files, baks, strand, pc, arg, refreshes, flushes, promised, lock, recs, delsLeft, flushLeft, pend>>
Exchange == /\ pend = "scan" /\ scan = {} /\ keys' = wa /\ pend' = "no" /\ lock' = (IF GUARD THEN "free" ELSE lock)
            /\ UNCHANGED <<map, ctr, files, baks, strand, pc, arg, scan, wa, refreshes, flushes, promised, recs, delsLeft, flushLeft>>
\* another refresh may be asked for at any time (by another deletion or the administrator)
AskRefresh == refreshes = 0 /\ pend = "no" /\ delsLeft > 0 /\ refreshes' = 1 /\ delsLeft' = delsLeft - 1
              /\ UNCHANGED <<map, ctr, keys, files, baks, strand, pc, arg, scan, wa, flushes, promised, lock, recs, flushLeft, pend>>

Next == \/ \E a \in ACTORS : Begin(a) \/ Find(a) \/ Create(a) \/ AddKey(a)
        \/ \E n \in NAMES : Delete(n) \/ Look(n)
        \/ \E i \in 1..Len(ctr) : Run(i)
        \/ Flush \/ StartRefresh \/ Exchange \/ AskRefresh
Spec == Init /\ [][Next]_vars

Rest == /\ \A a \in ACTORS : pc[a] = "idle" /\ refreshes = 0 /\ pend = "no" /\ \A i \in 1..Len(ctr) : strand[i] = <<>>
\* C17: a counter whose creation was completed is listed from then on; at rest exactly those that exist
Creating(n) == \E a \in ACTORS : arg[a] = n /\ pc[a] \in {"key"}
Listed == \A n \in NAMES : Live(n) /\ ~Creating(n) => n \in keys
ListedExactly == Rest => keys = {n \in NAMES : Live(n)}
\* C08: files belong to the counter in the map; a backup holds one deleted counter, and only deleted ones
OwnFiles == \A n \in NAMES : Live(n) => files[n] = map[n]
OnlyDeleted == \A i \in baks : ctr[i].dead
AllDeleted == Rest => \A i \in 1..Len(ctr) : ctr[i].dead => i \in baks /\ map[ctr[i].n] # i
\* C07: at rest every sample asked of a counter that was not deleted is in it
Recorded == Rest => \A i \in 1..Len(ctr) : ~ctr[i].dead => ctr[i].mem = ctr[i].asked
\* C09: what a flush that was answered promised is on disk (unless deleted since)
FlushKept == \A i \in DOMAIN promised : ctr[i].dead \/ ctr[i].disk >= promised[i]
\* no handler is left waiting for a lock for ever
NoWait == lock # "free" => \/ lock = "refresh" /\ pend = "scan"
                           \/ lock \in ACTORS /\ pc[lock] \in {"create", "key"}
Sym == Permutations(NAMES) \cup Permutations(ACTORS)
=============================================================================
