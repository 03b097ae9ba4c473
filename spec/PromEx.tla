------------------------------- MODULE PromEx -------------------------------
(* What the Prometheus endpoint shows: every event counter with the sum of     *)
(* all it received, every recent sample of a gauge, each name with its type.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Bags
\* ctrs: key -> [n, l, v, t]; gauges: sequence of [n, l, v, t, arr]
NewProm(on) == [on |-> on, ctrs |-> <<>>, gauges |-> <<>>, late |-> FALSE]
Recent == 30
Stale == 86400
\* ---- a line of input: [raw, n, ev, tags, t, v], tags a sequence of [ok, k, v, m, r]
\* tags of known names are gathered into as few label sets as possible; each other one makes a name of its own
RECURSIVE PutTag(_, _, _)
PutTag(gs, j, x) == IF j > Len(gs) THEN Append(gs, {<<x.k, x.v>>}) ELSE IF \E p \in gs[j] : p[1] = x.k THEN PutTag(gs, j + 1, x) ELSE [gs EXCEPT ![j] = @ \cup {<<x.k, x.v>>}]
Groups(tags) == FoldSeq(LAMBDA x, gs : IF x.ok THEN PutTag(gs, 1, x) ELSE gs, <<>>, tags)
Others(tags) == SelectSeq(tags, LAMBDA x : ~x.ok)
\* the entries a line makes: sequence of [key, n, ls (label sets)]
Entries(x) == (IF x.tags = <<>> THEN <<[key |-> x.raw, n |-> x.n, ls |-> <<{}>>]>> ELSE <<>>)
              \o (IF Groups(x.tags) = <<>> THEN <<>> ELSE <<[key |-> x.raw, n |-> x.n, ls |-> Groups(x.tags)]>>)
              \o [j \in 1..Len(Others(x.tags)) |-> [key |-> x.base \o "." \o Others(x.tags)[j].r, n |-> x.n \o "_" \o Others(x.tags)[j].m, ls |-> <<{}>>]]
Have(S, k) == {j \in 1..Len(S.ctrs) : S.ctrs[j].key = k}
PutOne(S, x, e, now) ==
  LET t == IF x.t = 0 THEN now ELSE x.t
  IN IF x.ev THEN LET j == Have(S, e.key)
                  IN IF j = {} THEN [S EXCEPT !.ctrs = Append(@, [key |-> e.key, n |-> e.n, ls |-> e.ls, v |-> x.v, t |-> t])]
                     ELSE [S EXCEPT !.ctrs[Max(j)].v = @ + x.v, !.ctrs[Max(j)].t = IF t > @ THEN t ELSE @]
     ELSE [S EXCEPT !.gauges = Append(@, [n |-> e.n, ls |-> e.ls, v |-> x.v, t |-> t, arr |-> now])]
Put(S, x, now) == IF ~S.on THEN S ELSE FoldSeq(LAMBDA e, T : PutOne(T, x, e, now), S, Entries(x))
PutAll(S, xs, now) == FoldSeq(LAMBDA x, T : Put(T, x, now), S, xs)
\* ---- what is shown
Shown(now) == now - (now % 5)
CtrLines(c, now) == [j \in 1..Len(c.ls) |-> <<c.n, c.ls[j] \cup {<<"counter", "1">>}, c.v, Shown(now)>>]
GaugeLines(g) == [j \in 1..Len(g.ls) |-> <<g.n, g.ls[j], g.v, g.t>>]
LinesOf(sq) == FoldSeq(LAMBDA x, b : b (+) SetToBag({x}), EmptyBag, FlattenSeq(sq))
SetOf(sq) == {sq[j] : j \in 1..Len(sq)}
Seen(a) == LET ms == SelectSeq(a.m, LAMBDA y : y.t = "metric") IN [j \in 1..Len(ms) |-> <<ms[j].n, SetOf(ms[j].l), ms[j].v, ms[j].s>>]
AsBag(sq) == FoldSeq(LAMBDA x, b : b (+) SetToBag({x}), EmptyBag, sq)
\* every line is well formed; the type of each name shown is stated before its samples (once, or once for each
\* counter of that name: the repository's tests want that), and is one it has
KindsOf(S, n) == {"counter" : c \in {j \in 1..Len(S.ctrs) : S.ctrs[j].n = n}} \cup {"gauge" : g \in {j \in 1..Len(S.gauges) : S.gauges[j].n = n}}
TypesOK(S, a) ==
  /\ \A j \in 1..Len(a.m) : a.m[j].t # "bad"
  /\ \A j \in 1..Len(a.m) : a.m[j].t = "type" => a.m[j].k \in KindsOf(S, a.m[j].n) /\ Cardinality({i \in 1..Len(a.m) : a.m[i] = a.m[j]}) <= (IF a.m[j].k = "gauge" THEN 1 ELSE Cardinality({i \in 1..Len(a.m) : a.m[i].t = "metric" /\ a.m[i].n = a.m[j].n}))
  /\ \A j \in 1..Len(a.m) : a.m[j].t = "metric" => \E i \in 1..(j - 1) : a.m[i].t = "type" /\ a.m[i].n = a.m[j].n
MustCtr(S, now) == SelectSeq(S.ctrs, LAMBDA c : c.t >= now - Stale)
MustGauge(S, now) == SelectSeq(S.gauges, LAMBDA g : g.t >= now - Recent)
\* what came late is there until the next cleanup; nothing stays for long
MayGauge(S, now) == SelectSeq(S.gauges, LAMBDA g : g.t >= now - Recent \/ g.arr >= now - 2 * Recent \/ g.t >= now - 3 * Recent)
Must(S, now) == LinesOf([j \in 1..Len(MustCtr(S, now)) |-> CtrLines(MustCtr(S, now)[j], now)] \o [j \in 1..Len(MustGauge(S, now)) |-> GaugeLines(MustGauge(S, now)[j])])
May(S, now) == LinesOf([j \in 1..Len(S.ctrs) |-> CtrLines(S.ctrs[j], now)] \o [j \in 1..Len(MayGauge(S, now)) |-> GaugeLines(MayGauge(S, now)[j])])
\* a sub-bag of bags of lines
Sub(a, b) == DOMAIN a \subseteq DOMAIN b /\ \A x \in DOMAIN a : a[x] <= b[x]
ScrapeOK(S, a, now) == LET got == AsBag(Seen(a)) IN TypesOK(S, a) /\ Sub(Must(S, now), got) /\ Sub(got, May(S, now))
\* what was found gone stays gone
Settle(S, a, now) == LET got == SetOf(Seen(a))
                     IN [S EXCEPT !.ctrs = SelectSeq(@, LAMBDA c : SetOf(CtrLines(c, now)) \subseteq got), !.gauges = SelectSeq(@, LAMBDA g : SetOf(GaugeLines(g)) \subseteq got)]
\* while lines come in: no counter shows less than before or more than after
DuringOK(S, T, a, now) ==
  LET seen == Seen(a)
      ofCtr(x, U) == {c \in SetOf(U.ctrs) : c.n = x[1] /\ \E j \in 1..Len(c.ls) : x[2] = c.ls[j] \cup {<<"counter", "1">>}}
      before(c) == IF Have(S, c.key) = {} THEN 0 ELSE S.ctrs[Max(Have(S, c.key))].v
  IN /\ TypesOK(T, a)
     /\ \A j \in 1..Len(seen) : \/ \E c \in ofCtr(seen[j], T) : seen[j][3] >= before(c) /\ seen[j][3] <= c.v
                                \/ \E g \in SetOf(T.gauges) : seen[j] \in SetOf(GaugeLines(g))
     /\ \A c \in SetOf(MustCtr(S, now)) : \A k \in 1..Len(c.ls) : \E j \in 1..Len(seen) : seen[j][1] = c.n /\ seen[j][2] = c.ls[k] \cup {<<"counter", "1">>}
     /\ \A g \in SetOf(MustGauge(S, now)) : SetOf(GaugeLines(g)) \subseteq SetOf(seen)
=============================================================================
