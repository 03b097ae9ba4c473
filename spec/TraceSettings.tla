--------------------------- MODULE TraceSettings ----------------------------
(* Is a recorded execution of the real settings a behaviour of Settings?      *)
EXTENDS Settings, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES h, l, S, bad
vars == <<h, l, S, bad>>
E == Hist[h].ev[l]
Fail(expected) == bad' = [history |-> Hist[h].id, line |-> l, event |-> E, expected |-> expected]
Ok(next) == S' = next /\ bad' = bad /\ l' = l + 1 /\ h' = h
Refuse(expected) == Fail(expected) /\ UNCHANGED <<h, l, S>>
Init == h \in 1..Len(Hist) /\ l = 1 /\ bad = <<>> /\ S = NewSettings
SetOf(sq) == {sq[j] : j \in 1..Len(sq)}
MapOf(kv) == [k \in {kv[j][1] : j \in 1..Len(kv)} |-> kv[CHOOSE j \in 1..Len(kv) : kv[j][1] = k][2]]
Disk == [s \in {E.disk[j].s : j \in 1..Len(E.disk)} |-> MapOf(E.disk[CHOOSE j \in 1..Len(E.disk) : E.disk[j].s = s].kv)]
\* saved: sections that must be saved now; lost: how many of them need not be, after all; unload: they are read again
Judge(T, saved, lost, unload) ==
  LET now == Disk
      allowed(s) == IF s \in saved /\ lost = 0 THEN MustBe(T, s) ELSE MayBe(T, s)
      kept == {s \in saved : s \in DOMAIN now /\ now[s] \in MustBe(T, s)}
      wrong == {s \in DOMAIN now : s \notin Sections(T) \/ now[s] \notin allowed(s)}
      clean(s) == s \in kept \/ (Dirty(T, s) = "yes" /\ now[s] = T.mem[s])
      dirt == [s \in Sections(T) |-> IF s \in DOMAIN now /\ clean(s) THEN "no" ELSE Dirty(T, s)]
      T1 == [T EXCEPT !.disk = now, !.dirty = dirt,
                      !.due = [s \in Sections(T) |-> IF dirt[s] = "no" \/ s \in saved THEN 0 ELSE At(T.due, s, 0)],
                      !.loaded = [s \in Sections(T) |-> IF unload /\ s \in kept THEN FALSE ELSE IsLoaded(T, s)]]
  IN IF E.outside # 0 \/ ~E.out THEN Refuse("nothing outside the directory")
     ELSE IF DOMAIN T.disk \ DOMAIN now # {} THEN Refuse([sectionsLost |-> DOMAIN T.disk \ DOMAIN now])
     ELSE IF wrong # {} THEN Refuse([onDisk |-> [s \in wrong |-> IF s \in Sections(T) THEN allowed(s) ELSE {"no such section"}]])
     ELSE IF Cardinality(saved \ kept) > lost THEN Refuse([saved |-> saved, are |-> kept])
     ELSE Ok(T1)
Due(T) == {s \in Sections(T) : Dirty(T, s) # "no" /\ At(T.due, s, 0) # 0 /\ T.due[s] <= T.now}
Flushed(T) == {s \in Sections(T) : IsLoaded(T, s)}
IsBig(v) == Len(v) = 3 /\ v[1] = -1
Bigs(T, s) == Cardinality({k \in DOMAIN Mem(T, s) : IsBig(Mem(T, s)[k])})
Post ==
  LET T == Use(Create(S, E.s), E.s)
      one == E.kv[1]
      tooMuch == Len(E.kv) = 1 /\ IsBig(one[2]) /\ Cardinality({k \in DOMAIN Mem(T, E.s) \ {one[1]} : IsBig(Mem(T, E.s)[k])}) >= 2
  IN IF ~ValidName(E.s) THEN (IF E.code = 400 THEN Judge(S, {}, 0, FALSE) ELSE Refuse("400: no such name"))
     ELSE IF tooMuch THEN (IF E.code = 400 THEN Judge(T, {}, 0, FALSE) ELSE Refuse("400: more than can be kept"))
     ELSE IF E.code = 200 THEN Judge(SetAll(T, E.s, E.kv), {}, 0, FALSE) ELSE Refuse("200")
Get ==
  IF ~ValidName(E.s) THEN (IF E.code = 400 THEN Judge(S, {}, 0, FALSE) ELSE Refuse("400: no such name"))
  ELSE IF ~IsLoaded(S, E.s) /\ ~OnDisk(S, E.s) THEN (IF E.code = 404 THEN Judge(S, {}, 0, FALSE) ELSE Refuse("404: no such section"))
  ELSE LET T == Use(S, E.s) r == Found(T, E.s, E.p)
       IN IF E.wf /\ SetOf(E.kv) = r /\ Len(E.kv) = Cardinality(r) /\ E.code = (IF r = {} THEN 404 ELSE 200) THEN Judge(T, {}, 0, FALSE)
          ELSE Refuse([found |-> r])
\* ---- several at once: each reads what it has set, and in the end everything is as set last
BurstOK(T) ==
  \A j \in 1..Len(E.setters) : LET w == E.setters[j] IN \A k \in 1..Len(w.seen) : w.seen[k][2] = w.seen[k][1]
Read ==
  /\ bad = <<>> /\ l <= Len(Hist[h].ev)
  /\ LET x == E.e
     IN CASE x \in {"died", "hung"} \/ "threw_" \in DOMAIN E -> Refuse("an answer")
          [] x = "new" -> Judge([NewSettings EXCEPT !.now = E.now], {}, 0, FALSE)
          [] x = "post" -> Post
          [] x = "get" -> Get
          [] x = "flush" -> IF E.told THEN Judge(S, Flushed(S), 0, TRUE) ELSE Refuse("an answer")
          [] x = "flush1" -> IF E.told THEN Judge(S, Flushed(S) \cap {E.s}, 0, TRUE) ELSE Refuse("an answer")
          [] x = "load" -> IF ~E.told THEN Refuse("an answer")
                           ELSE IF ~ValidName(E.s) \/ ~OnDisk(S, E.s) THEN Judge(S, {}, 0, FALSE)
                           ELSE IF ~IsLoaded(S, E.s) THEN Judge(Use(S, E.s), {}, 0, FALSE)
                           ELSE Judge([S EXCEPT !.mem[E.s] = Overlay(@, S.disk[E.s])], {}, 0, FALSE)
          [] x = "hold" -> LET T == [Use(Create(S, E.s), E.s) EXCEPT !.held = E.s]
                           IN IF ~ValidName(E.s) THEN (IF E.got THEN Refuse("no such name") ELSE Judge([S EXCEPT !.held = <<0>>], {}, 0, FALSE))
                              ELSE IF E.got THEN Judge(T, {}, 0, FALSE) ELSE Refuse("a section")
          [] x = "hset" -> IF S.held = <<0>> THEN Judge(S, {}, 0, FALSE) ELSE Judge(SetAll(S, S.held, E.kv), {}, 0, FALSE)
          [] x = "tick" -> LET T == [S EXCEPT !.now = E.now] IN Judge(T, Due(T), 0, FALSE)
          [] x = "restart" -> Judge(Restarted(S), {}, 0, FALSE)
          [] x = "edit" -> Judge([S EXCEPT !.disk = Put(@, E.s, MapOf(E.kv)), !.dirty = Put(@, E.s, IF Dirty(S, E.s) = "no" THEN "no" ELSE "maybe")], {}, 0, FALSE)
          \* the process dies while saving: of each section the old or the new contents are there
          [] x = "crash" -> IF ~E.clean THEN Refuse("an answer")
                            ELSE IF DOMAIN S.disk # DOMAIN Disk \/ \E s \in DOMAIN Disk : Disk[s] \notin (IF E.died THEN MayBe(S, s) ELSE MustBe(S, s))
                                 THEN Refuse([oldOrNew |-> [s \in DOMAIN S.disk |-> MayBe(S, s)]])
                            ELSE Judge(Restarted([S EXCEPT !.disk = Disk]), {}, 0, FALSE)
          [] x = "fail" -> LET T == [S EXCEPT !.now = E.now]
                           IN Judge(T, IF E.what = "flush" THEN Flushed(T) ELSE Due(T), IF E.fired THEN 1 ELSE 0, E.what = "flush")
          [] x = "burst" -> LET names == {E.setters[j].s : j \in 1..Len(E.setters)}
                                T0 == FoldSet(LAMBDA s, T : Use(Create(T, s), s), S, names)
                                T == FoldSeq(LAMBDA w, U : Set(U, w.s, w.k, w.v), T0, E.setters)
                            IN IF BurstOK(T) THEN Judge(T, Flushed(T), 0, TRUE) ELSE Refuse("each reads what it has set")
          [] OTHER -> Refuse("an event of the specification")
Next == Read
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>>
=============================================================================
