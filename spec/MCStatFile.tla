----------------------------- MODULE MCStatFile -----------------------------
(* Exhaustive check of the counter file against the map it pretends to be. *)
EXTENDS StatFile
CONSTANTS N, IV, CREATE, TMAX, KIND, FIXED, MODES, CMAX, VALS

cfg == [n |-> N, iv |-> IV, create |-> CREATE, kind |-> KIND, fixed |-> FIXED]

VARIABLES st,      \* the file
          acc,     \* ghost: interval -> bucket, never forgets within the window
          rej,     \* last update was refused
          tot,     \* ghost totals
          k        \* operations so far (bounds the search)

vars == <<st, acc, rej, tot, k>>

Init == st = NewFile(cfg) /\ acc = <<>> /\ rej = FALSE /\ tot = <<0, 0>> /\ k = 0

Data(t, v, c) == [t |-> t, s |-> v * c, q |-> v * v * c, mn |-> v, mx |-> v, c |-> c]

AccAt(i) == IF i \in DOMAIN acc THEN acc[i] ELSE Empty

DoUpdate(t, v, mode) ==
  LET d == IF mode = "agg" /\ KIND # "collated" THEN Data(t, v, 1)
           ELSE Data(TimeOf(cfg, Idx(cfg, t)), v, 1)
      r == Update(cfg, st, d, mode)
      i == Idx(cfg, t)
  IN /\ st' = r.st
     /\ rej' = ~r.ok
     /\ acc' = IF r.ok THEN (i :> Combine(cfg, AccAt(i), d, mode)) @@ acc ELSE acc
     /\ tot' = IF r.ok /\ ~(mode = "onlyempty" /\ AccAt(i).c # 0)
               THEN <<tot[1] + d.s, tot[2] + 1>> ELSE tot

Reset == /\ tot' = <<0, 0>> /\ st' = ResetCumulative(st, CREATE)
         /\ UNCHANGED <<acc, rej>>

Upd == \E t \in 0..TMAX, v \in VALS, mode \in MODES : DoUpdate(t, v, mode)
Next == k < CMAX /\ k' = k + 1 /\ (Upd \/ Reset)
Spec == Init /\ [][Next]_vars

\* The property: inside the window the ring is the map, nothing more or less.
RingIsMap == \A i \in (st.last - N + 1)..st.last : View(cfg, st, i) = AccAt(i)
\* Nothing outside the window is ever shown as being of that time ...
NothingOld == \A i \in DOMAIN acc : i <= st.last - N => (View(cfg, st, i) = Empty \/ View(cfg, st, i) = acc[i])
\* every accepted update is in the window it was accepted into
FirstInWindow == st.first > st.last - N /\ st.first <= st.last
Totals == st.cs = tot[1] /\ st.cc = tot[2]
\* the window never moves back, and a refusal changes nothing
Forward == [][st'.last >= st.last]_vars
Refusal == [][rej' /\ ~rej => UNCHANGED <<st, acc>>]_vars
\* a read of the whole window returns exactly the live buckets
ReadAll == LET r == Read(cfg, st, st.last - N + 1, N, 0)
           IN r.n = N /\ r.b = {<<i, AccAt(i)>> : i \in {j \in (st.last - N + 1)..st.last : AccAt(j) # Empty}}
ReadTooEarly == LET r == Read(cfg, st, st.last - N - 1, N, 0)
                IN r.n = N - 2 /\ r.b = {<<i, AccAt(i)>> : i \in {j \in (st.last - N + 1)..(st.last - 2) : AccAt(j) # Empty}}
=============================================================================
