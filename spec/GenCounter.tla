----------------------------- MODULE GenCounter -----------------------------
(* Behaviours of one counter, chosen with knowledge of its files and window. *)
EXTENDS StatCounter, Json
CONSTANTS DEPTH, KINDS, QUERIES
VARIABLES kind, pol, cfgs, g, ev, now, ops
vars == <<kind, pol, cfgs, g, ev, now, ops>>
One(S) == {RandomElement(S)}

Base == 1000000200
Pols == {<<[iv |-> 10, n |-> 512], [iv |-> 60, n |-> 512]>>,
         <<[iv |-> 10, n |-> 512], [iv |-> 60, n |-> 512], [iv |-> 300, n |-> 768]>>,
         <<[iv |-> 5, n |-> 512], [iv |-> 20, n |-> 512]>>,
         <<[iv |-> 60, n |-> 512], [iv |-> 3600, n |-> 512]>>,
         <<[iv |-> 7, n |-> 512], [iv |-> 21, n |-> 512], [iv |-> 42, n |-> 512]>>,
         <<[iv |-> 1, n |-> 512], [iv |-> 10, n |-> 512], [iv |-> 86400, n |-> 512]>>,
         <<[iv |-> 10, n |-> 512]>>}
PolOps(p) == [k \in DOMAIN p |-> [iv |-> p[k].iv, n |-> p[k].n - 30]]
Init == \E kd \in KINDS, p \in Pols, off \in {0, 7, 59} :
  /\ kind = kd /\ pol = p /\ now = Base + off
  /\ cfgs = GaugeCfgs(p, Base + off)
  /\ g = (IF kd = "gauge" THEN NewGauge(GaugeCfgs(p, Base + off)) ELSE <<>>)
  /\ ev = (IF kd = "event" THEN NewEvents(p, Base + off) ELSE [w |-> 0, pend |-> <<>>, files |-> <<>>])
  /\ ops = <<[o |-> "now", t |-> Base + off], [o |-> "new", kind |-> kd, zero |-> Base + off, pol |-> PolOps(p)]>>

iv1 == pol[1].iv
Span(k) == pol[k].iv * pol[k].n
LastK == Len(pol)
\* times around the interesting edges
TimeSet == {now, now - 1, now - iv1, now - 2 * iv1, now - 3 * iv1 - 1, now - 6 * iv1, now + 1, now + iv1, now + iv1 + 1,
            now + 2, now - pol[LastK].iv, now - pol[LastK].iv * 2 - 3, Base, Base - 1, Base - iv1, Base - pol[LastK].iv,
            Base + 61, now + 60, now + 61, now - Span(1), now - Span(1) + iv1, now - Span(1) \div 2}
EvTimes == IF ev.w = 0 THEN {now, now - 1, now - iv1, now - 3 * iv1, now - 12 * iv1, now + iv1, now + iv1 + 1, now - Span(1) \div 2}
           ELSE {now, now, now - 1, now + 1, now - iv1, now - 2 * iv1, now + iv1, now + iv1 + 1, ev.w, ev.w - 1, ev.w + iv1, ev.w + 4 * iv1,
                 ev.w + 5 * iv1, ev.w + 6 * iv1, ev.w + 2 * iv1}

Rec == \E t \in One(TimeSet), c \in One({1, 1, 2, 3}), v \in One({1, 2, 5, -3, 0, 100}), x \in One(1..14) :
  LET ok == [t |-> t, s |-> v * c, q |-> v * v * c, mn |-> v, mx |-> v, c |-> c]
      d == IF x = 1 THEN [ok EXCEPT !.c = 0]
           ELSE IF x = 2 THEN [ok EXCEPT !.mn = v + 3]
           ELSE IF x = 3 THEN [ok EXCEPT !.mx = v - 3, !.mn = v - 5]
           ELSE IF x = 4 THEN [ok EXCEPT !.s = v * c + 40 * c]
           ELSE IF x = 5 THEN [ok EXCEPT !.mn = v - 2, !.mx = v + 7]
           ELSE IF x = 6 THEN [ok EXCEPT !.s = 16777217, !.q = 4, !.mn = 16777216, !.mx = 16777218, !.c = 1]
           ELSE ok
      tame == d
  IN /\ g' = GaugeRecord(cfgs, g, tame, now)
     /\ ops' = Append(ops, [o |-> "rec", d |-> tame])
     /\ UNCHANGED <<kind, pol, cfgs, ev, now>>
Evt == \E t \in One(EvTimes), v \in One({1, 2, 3, 7, -1}) :
  /\ ev' = EventRecord(ev, t, v, now)
  /\ ops' = Append(ops, [o |-> "evt", t |-> t, v |-> v])
  /\ UNCHANGED <<kind, pol, cfgs, g, now>>
Clock == \E d \in One({x \in {1, 3, iv1 - 1, iv1, iv1 + 1, 2 * iv1, 5 * iv1, 12 * iv1, pol[LastK].iv, 3 * pol[LastK].iv + 1, Span(1) \div 3, Span(1) + 3} : x <= 100000}) :
  /\ now' = now + d /\ ops' = Append(ops, [o |-> "now", t |-> now + d]) /\ UNCHANGED <<kind, pol, cfgs, g, ev>>
Ctl == \E o \in One({"flush", "flush", "force", "reopen", "reopenswap"}) :
  /\ ev' = (IF kind = "gauge" THEN ev ELSE IF o = "flush" THEN EventFlush(ev, now) ELSE IF o = "force" THEN EventForce(ev, now) ELSE EventClose(ev))
  /\ ops' = Append(ops, [o |-> o]) /\ UNCHANGED <<kind, pol, cfgs, g, now>>

Edges == {now, now - 900, now - iv1, now + 3 * iv1, Base, Base - 700, now - Span(1), now - Span(1) - 40 * iv1, now - Span(1) + 3 * iv1,
          now - Span(LastK), now - 2 * Span(LastK), now - Span(1) \div 2, now - 3 * pol[LastK].iv, now - 40 * iv1 - 3, 0}
Sel == \E s \in One(Edges), e \in One(Edges), m \in One({0, 1, 2, 3, 10, 50, 100000, 7}), near \in One({0, 1}) :
  LET e1 == IF near = 1 /\ s # 0 THEN s + (m + 1) * iv1 * 3 ELSE e
      lo == Max2(s, 0)  hi == Max2(e1, 0)
  IN /\ ops' = Append(ops, [o |-> "sel", s |-> lo, e |-> hi, max |-> m]) /\ UNCHANGED <<kind, pol, cfgs, g, ev, now>>
Quiet == kind = "event" /\ DOMAIN ev.pend # {}
Step == /\ Len(ops) < DEPTH
        /\ LET w == RandomElement(1..100)
           IN IF w <= 22 THEN Clock
              ELSE IF w <= 34 THEN Ctl
              ELSE IF QUERIES /\ w <= 62 THEN (IF Quiet THEN Ctl ELSE Sel)
              ELSE IF kind = "gauge" THEN Rec ELSE Evt
Stuck == Len(ops) < DEPTH /\ now' = now + 1 /\ ops' = Append(ops, [o |-> "now", t |-> now + 1]) /\ UNCHANGED <<kind, pol, cfgs, g, ev>>
Done == Len(ops) = DEPTH /\ PrintT("VPGEN " \o ToJson(ops)) /\ ops' = Append(ops, [o |-> "end"]) /\ UNCHANGED <<kind, pol, cfgs, g, ev, now>>
Next == IF Len(ops) < DEPTH THEN (IF RandomElement(1..40) = 1 THEN Stuck ELSE Step) ELSE Done
Spec == Init /\ [][Next]_vars
=============================================================================
