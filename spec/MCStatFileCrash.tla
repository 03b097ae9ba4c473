-------------------------- MODULE MCStatFileCrash --------------------------
(* The counter file over a medium that may write back any slot, or the      *)
(* header, whenever it likes, and must do so at a synchronisation point.    *)
(* A crash leaves whatever the medium holds.                                *)
EXTENDS StatFile
CONSTANTS N, IV, CREATE, TMAX, KIND, CMAX

cfg == [n |-> N, iv |-> IV, create |-> CREATE, kind |-> KIND, fixed |-> 0]
VARIABLES st,       \* what the process sees
          dslots,   \* slots on the medium
          dhdr,     \* header on the medium
          had,      \* ghost: per slot, values since the last synchronisation
          hhad,     \* ghost: headers since then
          synced,   \* ghost: <<slots, header>> at the last synchronisation
          k
vars == <<st, dslots, dhdr, had, hhad, synced, k>>

At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE Empty
Hd(s) == [last |-> s.last, ltime |-> s.ltime, first |-> s.first, cs |-> s.cs, cq |-> s.cq, cc |-> s.cc, ct |-> s.ct]
Init == /\ st = NewFile(cfg) /\ dslots = [x \in 0..(N-1) |-> Empty] /\ dhdr = Hd(st)
        /\ had = [x \in 0..(N-1) |-> {Empty}] /\ hhad = {Hd(st)}
        /\ synced = <<dslots, dhdr>> /\ k = 0

Upd == \E t \in 0..TMAX :
  LET r == Update(cfg, st, [t |-> t, s |-> 1, q |-> 1, mn |-> 1, mx |-> 1, c |-> 1], "agg")
      x == Slot(cfg, Idx(cfg, t))
  IN /\ r.ok /\ st' = r.st
     /\ had' = [had EXCEPT ![x] = @ \cup {r.st.slots[x]}]
     /\ hhad' = hhad \cup {Hd(r.st)}
     /\ UNCHANGED <<dslots, dhdr, synced>>
WriteBack == /\ UNCHANGED <<st, had, hhad, synced>>
             /\ \/ dhdr' = Hd(st) /\ UNCHANGED dslots
                \/ \E x \in 0..(N-1) : dslots' = [dslots EXCEPT ![x] = At(st.slots, x)] /\ UNCHANGED dhdr
Sync == /\ dslots' = [x \in 0..(N-1) |-> At(st.slots, x)] /\ dhdr' = Hd(st)
        /\ had' = [x \in 0..(N-1) |-> {At(st.slots, x)}] /\ hhad' = {Hd(st)}
        /\ synced' = <<dslots', dhdr'>> /\ UNCHANGED st
Crash == /\ st' = [last |-> dhdr.last, ltime |-> dhdr.ltime, first |-> dhdr.first, slots |-> dslots,
                   cs |-> dhdr.cs, cq |-> dhdr.cq, cc |-> dhdr.cc, ct |-> dhdr.ct]
         /\ UNCHANGED <<dslots, dhdr>>
         /\ had' = [x \in 0..(N-1) |-> {dslots[x]}] /\ hhad' = {dhdr} /\ synced' = <<dslots, dhdr>>
Next == k < CMAX /\ k' = k + 1 /\ (Upd \/ WriteBack \/ Sync \/ Crash)
Spec == Init /\ [][Next]_vars

\* what a crash can leave is exactly what the trace checker allows
Allowed == (\A x \in 0..(N-1) : dslots[x] \in had[x]) /\ dhdr \in hhad
\* what was synchronised and not touched since survives
Durable == \A x \in 0..(N-1) : Cardinality(had[x]) = 1 => dslots[x] = synced[1][x]
\* a bucket is whole: it is never a mix, and it belongs to its slot
Sane == \A x \in 0..(N-1) : dslots[x] # Empty => Slot(cfg, Idx(cfg, dslots[x].t)) = x
=============================================================================
