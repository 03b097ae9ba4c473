------------------------------ MODULE GenStore ------------------------------
(* Behaviours of a store: records under interesting names, flushes and        *)
(* deletions with work still pending, listings, restarts, crashes, and        *)
(* operations of several threads.                                             *)
EXTENDS StatStore, Json
CONSTANTS DEPTH, MODES, THREADS, PROFILE
VARIABLES mode, now, evs, used, dead, until, flushing, id, ops
vars == <<mode, now, evs, used, dead, until, flushing, id, ops>>
One(X) == {RandomElement(X)}

\* a a.b a.b.c a.b.d a.bc b b.a B.A x_y x/y "x y" a..b .a.b a.b. a~b x.\377 ab (aliases of each other among them)
Gauges == {<<97>>, <<97, 46, 98>>, <<97, 46, 98, 46, 99>>, <<97, 46, 98, 46, 100>>, <<97, 46, 98, 99>>, <<98>>, <<98, 46, 97>>,
           <<66, 46, 65>>, <<120, 95, 121>>, <<120, 47, 121>>, <<120, 32, 121>>, <<97, 46, 46, 98>>, <<46, 97, 46, 98>>,
           <<97, 46, 98, 46>>, <<97, 126, 98>>, <<120, 46, 255>>, <<97, 98>>, <<98, 46, 97, 46, 99, 46, 100, 46, 101>>, <<46>>, <<46, 46>>}
Tops == {<<109>>, <<110>>, <<111>>, <<112, 46, 113>>}
\* *e *e.s *e.s.t *E.s *e.u *a.b e.s * *.
Events == {<<42, 101>>, <<42, 101, 46, 115>>, <<42, 101, 46, 115, 46, 116>>, <<42, 69, 46, 115>>, <<42, 101, 46, 117>>, <<42, 101, 46, 46, 115>>}
Other == {<<42, 97, 46, 98>>, <<101, 46, 115>>, <<42>>, <<42, 46>>, <<42, 98>>, <<101>>}
AllNames == Gauges \cup Events \cup Other
\* * a* *b ? a.? ?.? *.* a.b* ?b e* a.b *? x_? ?.?.? b?a e
Patterns == {<<42>>, <<97, 42>>, <<42, 98>>, <<63>>, <<97, 46, 63>>, <<63, 46, 63>>, <<42, 46, 42>>, <<97, 46, 98, 42>>, <<63, 98>>,
             <<101, 42>>, <<97, 46, 98>>, <<42, 63>>, <<120, 95, 63>>, <<63, 46, 63, 46, 63>>, <<98, 63, 97>>, <<101>>, <<42, 46, 63>>, <<>>}
DelPatterns == {<<97, 42>>, <<42, 98>>, <<97, 46, 63>>, <<101, 42>>, <<42>>, <<63>>}

Base == 1000000200
Init == \E m \in MODES, a \in {0, 1, 2, 5}, w \in {0, 1} :
  /\ mode = m /\ now = Base /\ evs = {} /\ used = {} /\ dead = {} /\ until = 0 /\ flushing = FALSE /\ id = 0
  /\ ops = <<[o |-> "new", mode |-> m, agg |-> IF m = "flat" THEN 0 ELSE a, watched |-> w], [o |-> "now", t |-> Base]>>
Emit(x) == ops' = Append(ops, x)
Eventful(n) == IsEvent(n) \/ Closure({Canon(n)}) \cap evs # {}
Pool == IF mode = "flat" THEN AllNames \cup Tops ELSE AllNames
\* prefer names in use
Pick == IF used # {} /\ RandomElement(1..3) < 3 THEN One(used) ELSE One(Pool)
Bucket(v, c) == [v |-> v * c, q |-> v * v * c, mn |-> v, mx |-> v, c |-> c]
FlatBusy == mode = "flat" /\ dead # {}
Note(n) == /\ used' = used \cup {n}
           /\ evs' = (IF IsEvent(n) /\ Canon(n) # <<>> THEN evs \cup Closure({Canon(n)}) ELSE evs)
Rec == \E n \in Pick, v \in One({10, 20, 30, 70}), c \in One({1, 1, 2}), back \in One({0, 0, 3, 15, 40}) :
  /\ Emit([o |-> "rec", n |-> n, t |-> IF Eventful(n) THEN now ELSE now - back, d |-> Bucket(v, IF Eventful(n) THEN 1 ELSE c)])
  /\ Note(n) /\ UNCHANGED <<mode, now, dead, until, flushing, id>>
Use == \E n \in Pick, v \in One({10, 20}) : Emit([o |-> "use", n |-> n, t |-> now, d |-> Bucket(v, 1)]) /\ UNCHANGED <<mode, now, evs, used, dead, until, flushing, id>>
Hold == \E n \in Pick : Emit([o |-> "hold", n |-> n]) /\ UNCHANGED <<mode, now, evs, used, dead, until, flushing, id>>
Clock == \E d \in One({3, 10, 25, 80}) : now - Base < 2400 /\ now' = now + d /\ Emit([o |-> "now", t |-> now + d]) /\ UNCHANGED <<mode, evs, used, dead, until, flushing, id>>
Settle == /\ Emit([o |-> "settle"]) /\ dead' = {} /\ flushing' = FALSE
          /\ until' = (IF flushing THEN Max2(until, now) + 70 ELSE until) /\ UNCHANGED <<mode, now, evs, used, id>>
Catch == \* make events definite again
  now' = until + 1 /\ Emit([o |-> "now", t |-> until + 1]) /\ UNCHANGED <<mode, evs, used, dead, until, flushing, id>>
Poll == \E k \in One({1, 1, 2, 3, 5}) : Emit([o |-> "poll", k |-> k]) /\ UNCHANGED <<mode, now, evs, used, dead, until, flushing, id>>
Flush == Emit([o |-> "flush", id |-> id]) /\ id' = id + 1 /\ flushing' = TRUE /\ until' = Max2(until, now) + 70 /\ UNCHANGED <<mode, now, evs, used, dead>>
Del == \E n \in Pick : Emit([o |-> "del", id |-> id, n |-> n]) /\ id' = id + 1 /\ dead' = dead \cup {Canon(n)} /\ UNCHANGED <<mode, now, evs, used, until, flushing>>
DelPat == \E p \in One(DelPatterns) : Emit([o |-> "delpat", id |-> id, p |-> p]) /\ id' = id + 1
            /\ dead' = dead \cup {Canon(n) : n \in used} /\ UNCHANGED <<mode, now, evs, used, until, flushing>>
List == \E p \in One(Patterns) : Emit([o |-> "list", p |-> p]) /\ UNCHANGED <<mode, now, evs, used, dead, until, flushing, id>>
Prune == Emit([o |-> "prune"]) /\ UNCHANGED <<mode, now, evs, used, dead, until, flushing, id>>
Reopen == \E k \in One({"restart", "restart", "crash"}) : Emit([o |-> k]) /\ dead' = {} /\ flushing' = FALSE /\ until' = 0 /\ UNCHANGED <<mode, now, evs, used, id>>
Race == /\ ops[1].watched = 1
        /\ \E n \in One(Gauges \cup Tops), k \in One(1..200) :
             LET m == n \o <<97 + (k % 26), 97 + (k \div 26)>>
             IN Emit([o |-> "race", n |-> m, t |-> now, v |-> 10]) /\ used' = used \cup {m}
        /\ UNCHANGED <<mode, now, evs, dead, until, flushing, id>>

\* ---- threads
BurstPool == IF mode = "flat" THEN {<<109>>, <<110>>, <<111>>, <<112>>}
             ELSE IF RandomElement(1..3) = 1 /\ now >= until THEN Events
             ELSE {<<97>>, <<97, 46, 98>>, <<97, 46, 98, 46, 99>>, <<98, 46, 97>>, <<99, 46, 97>>, <<99, 46, 98>>, <<100>>, <<120, 47, 121>>, <<102, 46, 102>>, <<103, 46, 104, 46, 105>>}
Clean(P) == {n \in P : IsEvent(n) \/ ~Eventful(n)}
ScriptOf(P, dels, fl, k) ==
  [j \in 1..k |->
     LET w == RandomElement(1..20)
     IN IF w <= 11 THEN [x |-> "r", n |-> RandomElement(P), t |-> now, v |-> 10]
        ELSE IF w <= 15 THEN [x |-> "l", n |-> <<>>, t |-> 0, v |-> 0]
        ELSE IF w <= 16 THEN [x |-> "k", n |-> <<>>, t |-> 0, v |-> 0]
        ELSE IF w <= 17 THEN [x |-> "p", n |-> <<>>, t |-> 0, v |-> 0]
        ELSE IF w <= 18 /\ fl THEN [x |-> "f", n |-> <<>>, t |-> 0, v |-> 0]
        ELSE IF w <= 19 /\ dels # {} THEN [x |-> "d", n |-> RandomElement(dels), t |-> 0, v |-> 0]
        ELSE [x |-> "y", n |-> <<>>, t |-> 0, v |-> 0]]
Burst == /\ THREADS
         /\ \E P0 \in {Clean(BurstPool)} : \E P \in {IF P0 = {} THEN {<<110>>} ELSE P0} :
            LET touched == Closure({Canon(n) : n \in P})
                dels == {n \in used : Canon(n) \notin touched /\ Canon(n) # <<>>}
                events == \E n \in P : IsEvent(n)
            IN \E s1 \in {ScriptOf(P, dels, ~events, 8)} : \E s2 \in {ScriptOf(P, dels, ~events, 8)} : \E s3 \in {ScriptOf(P, dels, ~events, 6)} : \E ns \in One({1, 2, 3}) :
               LET sc == <<s1, s2, s3>>
                   all == {s1[j] : j \in DOMAIN s1} \cup {s2[j] : j \in DOMAIN s2} \cup {s3[j] : j \in DOMAIN s3}
               IN /\ Emit([o |-> "burst", servers |-> ns, scripts |-> sc])
                  /\ used' = used \cup {y.n : y \in {z \in all : z.x = "r"}}
                  /\ evs' = evs \cup (IF events THEN touched ELSE {})
                  /\ dead' = dead \cup {Canon(y.n) : y \in {z \in all : z.x = "d"}}
                  /\ until' = (IF \E y \in all : y.x = "f" THEN Max2(until, now) + 70 ELSE until)
                  /\ UNCHANGED <<mode, now, flushing, id>>

\* how often each operation comes up (out of 100), by what the history is to concentrate on
Weight == CASE PROFILE = "names" -> [rec |-> 48, clock |-> 5, settle |-> 12, poll |-> 4, flush |-> 3, del |-> 4, delpat |-> 1, list |-> 6, hold |-> 1, use |-> 1, prune |-> 1, reopen |-> 11, burst |-> 3]
            [] PROFILE = "delete" -> [rec |-> 38, clock |-> 3, settle |-> 8, poll |-> 9, flush |-> 3, del |-> 12, delpat |-> 5, list |-> 4, hold |-> 4, use |-> 5, prune |-> 2, reopen |-> 3, burst |-> 4]
            [] PROFILE = "flush" -> [rec |-> 40, clock |-> 6, settle |-> 5, poll |-> 11, flush |-> 17, del |-> 4, delpat |-> 1, list |-> 1, hold |-> 1, use |-> 1, prune |-> 0, reopen |-> 9, burst |-> 4]
            [] PROFILE = "list" -> [rec |-> 35, clock |-> 2, settle |-> 8, poll |-> 6, flush |-> 1, del |-> 7, delpat |-> 2, list |-> 22, hold |-> 1, use |-> 1, prune |-> 1, reopen |-> 3, burst |-> 6]
            [] OTHER -> [rec |-> 45, clock |-> 5, settle |-> 10, poll |-> 6, flush |-> 5, del |-> 5, delpat |-> 2, list |-> 6, hold |-> 3, use |-> 3, prune |-> 1, reopen |-> 4, burst |-> 2]
Ops == <<"rec", "clock", "settle", "poll", "flush", "del", "delpat", "list", "hold", "use", "prune", "reopen", "burst">>
RECURSIVE UpTo(_)
UpTo(k) == IF k = 0 THEN 0 ELSE Weight[Ops[k]] + UpTo(k - 1)
Drawn(w) == LET K == {k \in 1..Len(Ops) : w <= UpTo(k)} IN IF K = {} THEN "race" ELSE Ops[Min(K)]

Step ==
  \E w \in One(1..100) : \E what \in {Drawn(RandomElement(1..103))} :
     IF FlatBusy /\ w <= 60 THEN (IF w <= 30 THEN Settle ELSE IF w <= 45 THEN Poll ELSE List)
     ELSE IF FlatBusy THEN Settle
     ELSE IF flushing /\ w <= 12 THEN Settle
     ELSE IF until > now /\ w <= 20 THEN Catch
     ELSE CASE what = "rec" -> Rec [] what = "clock" -> (IF now - Base < 2400 THEN Clock ELSE Rec) [] what = "settle" -> Settle [] what = "poll" -> Poll
            [] what = "flush" -> Flush [] what = "del" -> Del [] what = "delpat" -> DelPat [] what = "list" -> List
            [] what = "hold" -> Hold [] what = "use" -> Use [] what = "prune" -> Prune [] what = "reopen" -> Reopen
            [] what = "burst" -> Burst [] OTHER -> (IF ops[1].watched = 1 THEN Race ELSE Rec)
Stuck == Emit([o |-> "poll", k |-> 1]) /\ UNCHANGED <<mode, now, evs, used, dead, until, flushing, id>>
Final == Settle
Done == PrintT("VPGEN " \o ToJson(ops)) /\ Emit([o |-> "end"]) /\ UNCHANGED <<mode, now, evs, used, dead, until, flushing, id>>
Next == IF Len(ops) < DEPTH - 1 THEN Step \/ (RandomElement(1..40) = 1 /\ Stuck)
        ELSE IF Len(ops) = DEPTH - 1 THEN Final
        ELSE Len(ops) = DEPTH /\ Done
Spec == Init /\ [][Next]_vars
=============================================================================
