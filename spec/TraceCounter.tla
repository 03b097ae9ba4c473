---------------------------- MODULE TraceCounter ----------------------------
(* Is a recorded execution of the real StatCounter a behaviour of StatCounter? *)
EXTENDS StatCounter, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES h, l, kind, cfgs, g, ev, now, cnt, bad
vars == <<h, l, kind, cfgs, g, ev, now, cnt, bad>>

Zero3 == [fut |-> 0, past |-> 0, rej |-> 0]
NoEv == [w |-> 0, pend |-> <<>>, files |-> <<>>]
Init == /\ h \in 1..Len(Hist) /\ l = 1 /\ bad = <<>> /\ kind = "none" /\ cfgs = <<>> /\ g = <<>> /\ ev = NoEv
        /\ now = 1 /\ cnt = Zero3
E == Hist[h].ev[l]
SetOf(sq) == {sq[j] : j \in 1..Len(sq)}
Fail(expected) == bad' = [history |-> Hist[h].id, line |-> l, event |-> E, expected |-> expected]
Check(ok, expected, next) ==
  IF ok THEN next /\ bad' = bad /\ l' = l + 1 /\ h' = h
  ELSE Fail(expected) /\ UNCHANGED <<h, l, kind, cfgs, g, ev, now, cnt>>
Same == UNCHANGED <<kind, cfgs, g, ev, now, cnt>>

\* ---------------------------------------------------------------- files
\* what a gauge's files must show
GaugeFile(k) == [iv |-> cfgs[k].iv, n |-> cfgs[k].n, last |-> g[k].last, kind |-> "gauge", fixed |-> 0,
                 b |-> {x \in {View(cfgs[k], g[k], j) : j \in (g[k].last - cfgs[k].n + 1)..g[k].last} : x # Empty}]
LiveSlots(k) == {b \in Range(g[k].slots) : b.t > TimeOf(cfgs[k], g[k].last - cfgs[k].n)}
GaugeFilesOK(fs) == /\ Len(fs) = Len(cfgs)
  /\ \A k \in DOMAIN fs : /\ fs[k].iv = cfgs[k].iv /\ fs[k].n = cfgs[k].n /\ fs[k].last = g[k].last /\ fs[k].kind = "gauge"
                          /\ SetOf(fs[k].b) = LiveSlots(k)
\* what an event counter's files must show
EventFileOK(s, k, x) ==
  LET f == s.files[k]
      logged == [t \in {b.t : b \in SetOf(x.b)} |-> CHOOSE b \in SetOf(x.b) : b.t = t]
      Seen(i) == IF FTime(f, i) \in DOMAIN logged THEN logged[FTime(f, i)].s ELSE 0
      idx == {i \in DOMAIN f.m : FHas(f, i)} \cup {FIdx(f, t) : t \in DOMAIN logged}
             \cup (IF k = 1 THEN {i \in {FIdx(f, t) : t \in DOMAIN s.pend} : FHas(f, i)} ELSE {})
  IN /\ x.iv = f.iv /\ x.n = f.n
     /\ x.kind = (IF k = 1 THEN "collated" ELSE "agg")
     /\ (k > 1 => x.fixed = f.iv \div Iv(s))
     /\ x.last = f.last
     /\ \A i \in idx : IF k = 1 THEN Seen(i) \in Possible(s, i) ELSE Seen(i) = Get(f, i)
     /\ \A t \in DOMAIN logged :
          IF k = 1 THEN logged[t].c = 1 /\ logged[t].mn = logged[t].s /\ logged[t].mx = logged[t].s
          ELSE logged[t].c = x.fixed
EventFilesOK(s, fs) == Len(fs) = Len(s.files) /\ \A k \in DOMAIN fs : EventFileOK(s, k, fs[k])

\* ---------------------------------------------------------------- steps
New ==
  LET pol == [k \in DOMAIN E.files |-> [iv |-> E.files[k].iv, n |-> E.files[k].n]]
      zero == IF E.zero = 0 THEN now ELSE E.zero
      c == GaugeCfgs(pol, zero)
      shape == /\ Len(E.files) = Len(E.want)
               /\ \A k \in DOMAIN E.want : E.want[k].iv = E.files[k].iv /\ E.files[k].n >= E.want[k].n /\ E.files[k].b = <<>>
               /\ E.coll = (E.kind = "event")
               /\ \A k \in DOMAIN E.files : E.files[k].kind = (IF E.kind = "gauge" THEN "gauge" ELSE IF k = 1 THEN "collated" ELSE "agg")
  IN Check(shape, "files as configured",
       /\ kind' = E.kind /\ cfgs' = c /\ cnt' = Zero3 /\ now' = now
       /\ g' = IF E.kind = "gauge" THEN NewGauge(c) ELSE <<>>
       /\ ev' = IF E.kind = "event" THEN NewEvents(pol, zero) ELSE NoEv)

Counted(v) == [fut |-> cnt.fut + (IF v = "future" THEN 1 ELSE 0), past |-> cnt.past + (IF v = "past" THEN 1 ELSE 0),
               rej |-> cnt.rej + (IF v = "rejected" THEN 1 ELSE 0)]
Rec == LET v == GaugeVerdict(E.d, now)  c == Counted(v)
       IN Check(E.fut = c.fut /\ E.past = c.past /\ E.rej = c.rej, [verdict |-> v, cnt |-> c],
                g' = GaugeRecord(cfgs, g, E.d, now) /\ cnt' = c /\ UNCHANGED <<kind, cfgs, ev, now>>)
Evt == LET v == EventVerdict(ev, E.t, now)  c == Counted(v)
       IN Check(E.fut = c.fut /\ E.past = c.past /\ E.rej = c.rej, [verdict |-> v, cnt |-> c],
                ev' = EventRecord(ev, E.t, E.v, now) /\ cnt' = c /\ UNCHANGED <<kind, cfgs, g, now>>)

Flushed(s) == IF kind = "gauge" THEN Check(GaugeFilesOK(E.files), [k \in DOMAIN g |-> GaugeFile(k)], Same)
              ELSE Check(EventFilesOK(s, E.files), s, ev' = s /\ UNCHANGED <<kind, cfgs, g, now, cnt>>)
Flush == Flushed(IF kind = "event" THEN EventFlush(ev, now) ELSE ev)
Force == Flushed(IF kind = "event" THEN EventForce(ev, now) ELSE ev)
Reopen == IF E.coll # (kind = "event") THEN Check(FALSE, "the counter keeps its kind", TRUE)
          ELSE Flushed(IF kind = "event" THEN EventClose(ev) ELSE ev)

Sel ==
  IF kind = "gauge"
  THEN LET r == GaugeSelect(cfgs, g, E.s, E.en, E.max, now)
       IN Check(IF r.refused THEN E.refused /\ E.b = <<>>
                ELSE E.ns = r.s /\ E.ne = r.e /\ E.iv = r.iv /\ E.b = r.b, r, Same)
  ELSE LET r == EventSelect(ev, E.s, E.en, E.max, now)
           NZ(bs) == {[t |-> bs[j].t, s |-> bs[j].s] : j \in {x \in 1..Len(bs) : bs[x].s # 0}}
           TS(bs) == [j \in 1..Len(bs) |-> bs[j].t]
           ok == IF r.refused THEN E.refused /\ E.b = <<>>
                 ELSE /\ E.ns = r.s /\ E.ne = r.e /\ E.iv = r.iv
                      /\ NZ(E.b) = NZ(r.b)
                      /\ (r.aligned /\ r.e > r.s => TS(E.b) = TS(r.b))
       IN IF \E t \in DOMAIN ev.pend : TRUE THEN Check(TRUE, <<>>, Same) ELSE Check(ok, r, Same)

Step ==
  \/ E.e = "now" /\ Check(TRUE, <<>>, now' = E.t /\ UNCHANGED <<kind, cfgs, g, ev, cnt>>)
  \/ E.e = "new" /\ New
  \/ E.e = "rec" /\ Rec
  \/ E.e = "evt" /\ Evt
  \/ E.e = "flush" /\ Flush
  \/ E.e = "force" /\ Force
  \/ E.e = "reopen" /\ Reopen
  \/ E.e = "sel" /\ Sel
Next ==
  /\ bad = <<>> /\ l <= Len(Hist[h].ev)
  /\ \/ ("threw_" \in DOMAIN E \/ E.e = "died") /\ Check(FALSE, "the operation completes", TRUE)
     \/ "threw_" \notin DOMAIN E /\ Step
Spec == Init /\ [][Next]_vars
Accepted == bad = <<>>
=============================================================================
