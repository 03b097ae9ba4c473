------------------------------- MODULE MCProm -------------------------------
(* Feeders add to counters and leave samples of a gauge, a scraper copies      *)
(* entry by entry, time passes and a cleanup drops old samples: all of them    *)
(* at the same time.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS NF, NADD, TMAX, LOCK, KEEP
VARIABLES pc, got, left, ctr, gauges, now, copy, scrapes, lock, fed, lastClean
vars == <<pc, got, left, ctr, gauges, now, copy, scrapes, lock, fed, lastClean>>
F == 1..NF
\* keys: two raw counters of one name
Keys == {"x1", "x2"}
Name(k) == "x"
KeyOf(f) == IF f % 2 = 1 THEN "x1" ELSE "x2"
Old == 1
Init == /\ pc = [f \in F |-> "idle"] /\ got = [f \in F |-> 0] /\ left = [f \in F |-> NADD] /\ ctr = [k \in Keys |-> 0] /\ gauges = {} /\ now = 0
        /\ copy = [on |-> FALSE, todo |-> {}, vals |-> <<>>, gs |-> {}] /\ scrapes = <<>> /\ lock = "free" /\ fed = {} /\ lastClean = 0
Who(f) == IF f = 1 THEN "f1" ELSE IF f = 2 THEN "f2" ELSE "f3"
Begin(f) == /\ pc[f] = "idle" /\ left[f] > 0 /\ (LOCK => lock = "free") /\ lock' = Who(f) /\ pc' = [pc EXCEPT ![f] = "read"] /\ got' = [got EXCEPT ![f] = ctr[KeyOf(f)]]
            /\ UNCHANGED <<left, ctr, gauges, now, copy, scrapes, fed, lastClean>>
Finish(f) == /\ pc[f] = "read" /\ pc' = [pc EXCEPT ![f] = "idle"] /\ ctr' = [ctr EXCEPT ![KeyOf(f)] = got[f] + 1] /\ left' = [left EXCEPT ![f] = @ - 1]
             /\ gauges' = gauges \cup {<<f, left[f], now>>} /\ fed' = fed \cup {<<f, left[f], now>>} /\ lock' = "free" /\ UNCHANGED <<got, now, copy, scrapes, lastClean>>
Start == /\ ~copy.on /\ Len(scrapes) < 2 /\ (LOCK => lock = "free") /\ lock' = "scraper"
         /\ copy' = [on |-> TRUE, todo |-> Keys, vals |-> <<>>, gs |-> {}] /\ UNCHANGED <<pc, got, left, ctr, gauges, now, scrapes, fed, lastClean>>
One == /\ copy.on /\ copy.todo # {} /\ \E k \in copy.todo :
          copy' = [copy EXCEPT !.todo = @ \ {k}, !.vals = Append(@, <<k, ctr[k]>>)]
       /\ UNCHANGED <<pc, got, left, ctr, gauges, now, scrapes, lock, fed, lastClean>>
End == /\ copy.on /\ copy.todo = {} /\ copy' = [copy EXCEPT !.on = FALSE] /\ lock' = "free"
       /\ scrapes' = Append(scrapes, [vals |-> copy.vals, gs |-> gauges, at |-> now, fed |-> fed]) /\ UNCHANGED <<pc, got, left, ctr, gauges, now, fed, lastClean>>
Tick == now < TMAX /\ lock = "free" /\ now' = now + 1 /\ UNCHANGED <<pc, got, left, ctr, gauges, copy, scrapes, lock, fed, lastClean>>
Clean == /\ lock = "free" /\ lastClean < now /\ lastClean' = now /\ gauges' = {g \in gauges : IF KEEP THEN g[3] >= now - Old ELSE g[3] > now - Old}
         /\ UNCHANGED <<pc, got, left, ctr, now, copy, scrapes, lock, fed>>
Next == (\E f \in F : Begin(f) \/ Finish(f)) \/ Start \/ One \/ End \/ Tick \/ Clean
Spec == Init /\ [][Next]_vars
\* ---- what must hold
Added(k) == LET fs == {f \in F : KeyOf(f) = k} IN Cardinality({x \in fed : x[1] \in fs})
Sum == \A k \in Keys : ctr[k] = Added(k)
NeverLess == Len(scrapes) = 2 => \A i, j \in 1..2 : scrapes[1].vals[i][1] = scrapes[2].vals[j][1] => scrapes[1].vals[i][2] <= scrapes[2].vals[j][2]
RecentShown == \A n \in 1..Len(scrapes) : \A g \in scrapes[n].fed : g[3] >= scrapes[n].at - Old => g \in scrapes[n].gs
EachOnce == \A n \in 1..Len(scrapes) : {scrapes[n].vals[j][1] : j \in 1..Len(scrapes[n].vals)} = Keys /\ Len(scrapes[n].vals) = Cardinality(Keys)
=============================================================================
