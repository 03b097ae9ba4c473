---------------------------- MODULE TraceStatFile ----------------------------
(***************************************************************************)
(* Is a recorded execution of the real counter file a behaviour of         *)
(* StatFile?  One initial state per recorded history; every logged reply   *)
(* is compared with the one the specification computes.                    *)
(*                                                                         *)
(* Crashes: between two synchronisation points (open, flush, orderly close)*)
(* any slot may be written back at any moment, so `poss` keeps, per slot,  *)
(* the values it had since the last one, and `hposs` the headers.  After a *)
(* crash the file must show one of them, slot by slot.                     *)
(***************************************************************************)
EXTENDS StatFile, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.VP_TRACE)

VARIABLES h, l, cfg, st, now, poss, hposs, bad
vars == <<h, l, cfg, st, now, poss, hposs, bad>>

NoCfg == [n |-> 2, iv |-> 1, create |-> 0, kind |-> "gauge", fixed |-> 0]

Init == /\ h \in 1..Len(Hist) /\ l = 1 /\ bad = <<>>
        /\ cfg = NoCfg /\ st = NewFile(NoCfg) /\ now = 1 /\ poss = <<>> /\ hposs = {}

Ev == Hist[h].ev[l]

\* logged lists of <<key, bucket>> pairs as functions / sets
AsFun(sq) == [k \in {sq[j][1] : j \in 1..Len(sq)} |->
                LET j == CHOOSE j \in 1..Len(sq) : sq[j][1] = k IN sq[j][2]]
AsSet(sq) == {sq[j] : j \in 1..Len(sq)}

NonEmptySlots(s) == {<<k, s.slots[k]>> : k \in {j \in DOMAIN s.slots : s.slots[j] # Empty}}
Synced(s) == [k \in DOMAIN s.slots |-> {s.slots[k]}]
SlotPoss(k) == IF k \in DOMAIN poss THEN poss[k] ELSE {Empty}

Fail(expected) == bad' = [history |-> Hist[h].id, line |-> l, event |-> Ev, expected |-> expected]

Check(ok, expected, next) ==
  IF ok THEN next /\ bad' = bad /\ l' = l + 1 /\ h' = h
  ELSE Fail(expected) /\ UNCHANGED <<h, l, cfg, st, now, poss, hposs>>

Whole(s) == [hdr |-> Header(s), slots |-> NonEmptySlots(s)]
SameWhole(s) == Ev.hdr = Header(s) /\ AsSet(Ev.slots) = NonEmptySlots(s)
SyncTo(c, s) == cfg' = c /\ st' = s /\ poss' = Synced(s) /\ hposs' = {Header(s)} /\ now' = now

Open ==
  LET zero == IF Ev.zero = 0 THEN now ELSE Ev.zero
      c == [n |-> Ev.n, iv |-> Ev.iv, create |-> zero - (zero % Ev.iv), kind |-> Ev.kind, fixed |-> Ev.fixed]
      s == NewFile(c)
  IN IF Ev.done
     THEN Check(Ev.n >= Ev.want /\ SameWhole(s), Whole(s), SyncTo(c, s))
     ELSE Check(TRUE, <<>>, SyncTo(c, s))

\* a new bucket value becomes possible on disk, the older ones stay possible
Upd ==
  LET r == Update(cfg, st, Ev.d, Ev.mode)
      k == Slot(cfg, Idx(cfg, Ev.d.t))
  IN Check(Ev.ok = r.ok /\ Ev.hdr = Header(r.st), [ok |-> r.ok, hdr |-> Header(r.st)],
           /\ st' = r.st /\ cfg' = cfg /\ now' = now
           /\ poss' = IF r.ok THEN (k :> (SlotPoss(k) \cup {r.st.slots[k]})) @@ poss ELSE poss
           /\ hposs' = hposs \cup {Header(r.st)})

RCum ==
  LET s == ResetCumulative(st, IF Ev.t = 0 THEN now ELSE Ev.t)
  IN Check(Ev.hdr = Header(s), Header(s),
           st' = s /\ hposs' = hposs \cup {Header(s)} /\ UNCHANGED <<cfg, now, poss>>)

ReadEv ==
  LET r == Read(cfg, st, Ev.from, Ev.cnt, now)
  IN Check(Ev.n = r.n /\ AsSet(Ev.b) = r.b, r, UNCHANGED <<cfg, st, now, poss, hposs>>)

BucketEv == Check(Ev.b = View(cfg, st, Ev.i), View(cfg, st, Ev.i), UNCHANGED <<cfg, st, now, poss, hposs>>)

MapEv ==
  LET i == Idx(cfg, Ev.t)
      x == [i |-> i, up |-> IF Ev.t % cfg.iv = 0 THEN i ELSE i + 1, back |-> TimeOf(cfg, i), in |-> InFile(cfg, st, i, now)]
  IN Check(Ev.i = x.i /\ Ev.up = x.up /\ Ev.back = x.back /\ Ev.in = x.in, x, UNCHANGED <<cfg, st, now, poss, hposs>>)

Flush == IF Ev.done THEN Check(Ev.hdr = Header(st), Header(st), SyncTo(cfg, st))
         ELSE Check(TRUE, <<>>, UNCHANGED <<cfg, st, now, poss, hposs>>)

Reopen == IF Ev.done THEN Check(Ev.iv = cfg.iv /\ Ev.n = cfg.n /\ SameWhole(st), Whole(st), SyncTo(cfg, st))
          ELSE Check(TRUE, <<>>, UNCHANGED <<cfg, st, now, poss, hposs>>)

ReadOnly == Check(Ev.threw /\ Ev.same /\ SameWhole(st), Whole(st), SyncTo(cfg, st))

Trunc ==
  LET s == [st EXCEPT !.slots = [k \in {j \in DOMAIN st.slots : j < Ev.k} |-> st.slots[k]]]
  IN Check(SameWhole(s), Whole(s), SyncTo(cfg, s))

Damage == Check(Ev.threw /\ Ev.same, "refused and left alone", SyncTo(cfg, st))

Crash ==
  LET f == AsFun(Ev.slots)
      val(k) == IF k \in DOMAIN f THEN f[k] ELSE Empty
      wrong == {k \in DOMAIN f \cup DOMAIN poss : val(k) \notin SlotPoss(k)}
      hd == Ev.hdr
  IN IF ~Ev.ok THEN Check(FALSE, "the file can be opened again", TRUE)
     ELSE Check(wrong = {} /\ hd \in hposs,
           [hdr |-> hposs, slots |-> {<<k, val(k), SlotPoss(k)>> : k \in wrong}],
           SyncTo(cfg, [last |-> hd.last, ltime |-> hd.ltime, first |-> hd.first, slots |-> f,
                        cs |-> hd.cs, cq |-> hd.cq, cc |-> hd.cc, ct |-> hd.ct]))

Now_ == Check(TRUE, <<>>, now' = Ev.t /\ UNCHANGED <<cfg, st, poss, hposs>>)

Step ==
     \/ Ev.e = "reset" /\ Check(TRUE, <<>>, UNCHANGED <<cfg, st, now, poss, hposs>>)
     \/ Ev.e = "now" /\ Now_
     \/ Ev.e = "open" /\ Open
     \/ Ev.e = "upd" /\ Upd
     \/ Ev.e = "rcum" /\ RCum
     \/ Ev.e = "read" /\ ReadEv
     \/ Ev.e = "bucket" /\ BucketEv
     \/ Ev.e = "map" /\ MapEv
     \/ Ev.e = "flush" /\ Flush
     \/ Ev.e = "reopen" /\ Reopen
     \/ Ev.e = "ro" /\ ReadOnly
     \/ Ev.e = "trunc" /\ Trunc
     \/ Ev.e = "damage" /\ Damage
     \/ Ev.e = "crash" /\ Crash
Next ==
  /\ bad = <<>> /\ l <= Len(Hist[h].ev)
  /\ \/ ("threw_" \in DOMAIN Ev \/ Ev.e = "died") /\ Check(FALSE, "the operation completes", TRUE)
     \/ "threw_" \notin DOMAIN Ev /\ Step
Spec == Init /\ [][Next]_vars

Accepted == bad = <<>>
=============================================================================
