-------------------------------- MODULE Http --------------------------------
(* What each request to the query interface has to be answered with, from     *)
(* what the store holds. A parameter is a record of the text sent and its      *)
(* meaning: a number, Neg (a negative one), Wrong (none) or Absent.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Neg == -1
Wrong == -2
Absent == -3
\* ctrs: sequence of [names, held, broken]; agents: sequence of sets of attributes
NewHttp(store) == [ctrs |-> <<>>, agents |-> <<>>, store |-> store]
Named(S, n) == {j \in 1..Len(S.ctrs) : \E i \in 1..Len(S.ctrs[j].names) : S.ctrs[j].names[i] = n}
\* the store's own rule for ranges (see drv_http)
Interval(s, e, most) == IF (e - s) \div 10 <= most THEN 10 ELSE 60
Down(x, i) == x - (x % i)
Sel(c, s, e, most, trailing) ==
  LET i == Interval(s, e, most)
      in == SelectSeq(c.held, LAMBDA b : b[1] >= Down(s, i) /\ b[1] < Down(e, i))
  IN [start |-> Down(s, i), end |-> Down(e, i), interval |-> i,
      \* time, count, min, max, sum, sum of squares
      rows |-> [j \in 1..Len(in) |-> <<in[j][1], in[j][2], in[j][5], in[j][6], in[j][3] + (IF trailing THEN 1000 ELSE 0), in[j][4]>>]]
\* ---- objects in answers are sequences of keys and values
KeysOf(o) == [j \in 1..Len(o) |-> o[j].k]
SameKeys(o, ks) == Len(o) = Cardinality(ks) /\ {o[j].k : j \in 1..Len(o)} = ks
Field(o, k) == o[CHOOSE j \in 1..Len(o) : o[j].k = k].v
FieldsAre(o, ks, want(_, _)) == SameKeys(o, ks) /\ \A j \in 1..Len(o) : want(o[j].k, o[j].v)
\* ---- one counter
RangeOf(q, now) ==
  LET s == IF q.start.v = Absent THEN 0 ELSE q.start.v  e == IF q.end.v = Absent THEN 0 ELSE q.end.v
  IN IF s = 0 /\ e = 0 THEN <<now - 900, now>> ELSE IF s = 0 THEN <<e - 900, e>> ELSE IF e = 0 THEN <<s, s + 900>> ELSE <<s, e>>
BadGet(q) == \/ q.start.v \in {Neg, Wrong} \/ q.end.v \in {Neg, Wrong} \/ q.samples.v \in {Neg, Wrong} \/ q.trailing.v = Wrong
             \/ (q.start.v > 0 /\ q.end.v > 0 /\ q.end.v < q.start.v)
Nums == [k \in {"time", "count", "min", "max", "sum", "sumsq"} |-> CASE k = "time" -> 1 [] k = "count" -> 2 [] k = "min" -> 3 [] k = "max" -> 4 [] k = "sum" -> 5 [] OTHER -> 6]
DataIs(o, row, avg) == SameKeys(o, {"count", "min", "max", "sum", "sumsq", "avg", "sdev"})
                       /\ \A k \in {"count", "min", "max", "sum", "sumsq"} : Field(o, k) = row[Nums[k]]
                       /\ Field(o, "avg") = avg
Avg(row) == IF row[2] = 0 THEN 0 ELSE row[5] \div row[2]
AvgOK(row) == row[2] = 0 \/ row[5] % row[2] = 0
AvgIs(x, row) == AvgOK(row) => x = Avg(row)
JsonIs(b, w) ==
  /\ SameKeys(b, {"start", "end", "interval", "buckets"})
  /\ Field(b, "start") = w.start /\ Field(b, "end") = w.end /\ Field(b, "interval") = w.interval
  /\ Len(Field(b, "buckets")) = Len(w.rows)
  /\ \A j \in 1..Len(w.rows) :
       LET o == Field(b, "buckets")[j]  r == w.rows[j]
       IN SameKeys(o, {"time", "data"}) /\ Field(o, "time") = r[1]
          /\ DataIs(Field(o, "data"), r, IF AvgOK(r) THEN Avg(r) ELSE Field(Field(o, "data"), "avg"))
CsvIs(rows, w) == Len(rows) = Len(w.rows) /\ \A j \in 1..Len(rows) : Len(rows[j]) = 8 /\ SubSeq(rows[j], 1, 6) = w.rows[j] /\ AvgIs(rows[j][7], w.rows[j])
IsError(a) == a.code >= 400 /\ a.code < 600
\* ---- several counters
\* v: the text's meaning
M(t, dflt) == IF t.v \in {Absent, 0} THEN dflt ELSE t.v
BadMulti(q) == \/ q.doc # "object" \/ q.cl \in {"none", "bad", "neg", "huge"}
               \/ q.start.v \in {Neg, Wrong} \/ q.end.v \in {Neg, Wrong} \/ q.samples.v \in {Neg, Wrong}
               \/ M(q.end, 0) < M(q.start, 0) \/ q.keys = "none" \/ \E j \in 1..Len(q.names) : ~q.names[j].ok
EntryIs(S, q, name, v) ==
  LET c == Named(S, name)
  IN IF c = {} THEN v = "Not found."
     ELSE IF S.ctrs[Max(c)].broken THEN v = "Not available."
     ELSE LET w == Sel(S.ctrs[Max(c)], M(q.start, 0), M(q.end, 0), M(q.samples, 100), q.trailing = "1")
          IN /\ SameKeys(v, {"start", "end", "interval", "data"})
             /\ Field(v, "start") = w.start /\ Field(v, "end") = w.end /\ Field(v, "interval") = w.interval
             /\ Len(Field(v, "data")) = Len(w.rows)
             /\ \A j \in 1..Len(w.rows) :
                  LET x == Field(v, "data")[j]  r == w.rows[j]
                  IN IF q.compact = "true" THEN Len(x) = 8 /\ SubSeq(x, 1, 6) = r /\ AvgIs(x[7], r)
                     ELSE /\ SameKeys(x, {"time", "count", "min", "max", "sum", "sumsq", "avg", "sdev"})
                          /\ \A k \in DOMAIN Nums : Field(x, k) = r[Nums[k]]
                          /\ AvgIs(Field(x, "avg"), r)
Present(S, names) == {n \in names : Named(S, n) # {} /\ ~S.ctrs[Max(Named(S, n))].broken}
MultiIs(S, q, b) ==
  LET names == {q.names[j].n : j \in 1..Len(q.names)}
      there == Present(S, names)
      ks == names \cup (IF there = {} THEN {} ELSE {"start", "stop", "interval"})
  IN /\ SameKeys(b, ks)
     /\ \A n \in names : EntryIs(S, q, n, Field(b, n))
     /\ there # {} => \E n \in there : LET e == Field(b, n) IN Field(b, "start") = Field(e, "start") /\ Field(b, "stop") = Field(e, "end") /\ Field(b, "interval") = Field(e, "interval")
\* ---- lists
AllNames(S) == FlattenSeq([j \in 1..Len(S.ctrs) |-> S.ctrs[j].names])
ListIs(S, q, b) ==
  LET want == SelectSeq(AllNames(S), LAMBDA n : q.pat = "*" \/ n = q.pat)
      got == Field(b, "matching_names")
  IN /\ SameKeys(b, {"type_mapping", "pattern", "matching_names"}) /\ Field(b, "pattern") = q.pat
     /\ Len(got) = Len(want) /\ \A j \in 1..Len(want) : SameKeys(got[j], {"is_leaf", "type", "name"}) /\ Field(got[j], "name") = want[j]
AgentIs(o, attrs) == /\ Cardinality({o[j].k : j \in 1..Len(o)}) = Len(o)
                     /\ \A a \in attrs : \E j \in 1..Len(o) : o[j].k = a[1] /\ o[j].v = a[2]
                     /\ {o[j].k : j \in 1..Len(o)} = {a[1] : a \in attrs} \cup {"_peer", "_online", "_connected", "_idle"}
                     /\ Field(o, "_online") = TRUE
AgentsAre(S, b) ==
  LET got == Field(b, "agents")
  IN /\ SameKeys(b, {"count", "agents"}) /\ Field(b, "count") = Len(S.agents) /\ Len(got) = Len(S.agents)
     /\ \E p \in Permutations(1..Len(S.agents)) : \A j \in 1..Len(S.agents) : AgentIs(got[p[j]], S.agents[j])
\* ---- which encodings an Accept-Encoding header allows
Encodings(h) == CASE h \in {"gzip", "gzip, foo", "gzip;q=1.0"} -> {"gzip", "none"}
                  [] h = "deflate" -> {"deflate", "none"}
                  [] h \in {"gzip, deflate", "deflate, gzip", "*", "gzip;q=0.5, deflate;q=0.8", "deflate;q=0.5,gzip;q=0.2"} -> {"gzip", "deflate", "none"}
                  [] h = "gzip;q=0, deflate" -> {"deflate", "none"}
                  [] OTHER -> {"none"}
\* "": there is no such file
Answered(S, q, a, now) ==
  IF a.code = 0 THEN FALSE
  ELSE IF q.k = "raw" THEN q.want = "any" \/ IsError(a)
  ELSE IF ~S.store THEN a.code = 503
  ELSE IF q.k = "get" THEN
       LET c == Named(S, q.name)
           w == Sel(S.ctrs[Max(c)], RangeOf(q, now)[1], RangeOf(q, now)[2], IF q.samples.v = Absent THEN 1000 ELSE q.samples.v, q.trailing.v \notin {Absent, 0})
       IN IF BadGet(q) THEN a.code = 400
          ELSE IF c = {} THEN a.code = 404
          ELSE IF q.format = "other" \/ S.ctrs[Max(c)].broken THEN IsError(a)
          ELSE a.code = 200 /\ (IF q.format = "csv" THEN a.type = "text/csv" /\ CsvIs(a.rows, w) ELSE a.type = "application/json" /\ JsonIs(a.body, w))
  ELSE IF q.k = "multi" THEN
       IF q.cl = "more" THEN TRUE          \* the end of the body never came
       ELSE IF BadMulti(q) THEN IsError(a) ELSE a.code = 200 /\ MultiIs(S, q, a.body)
  ELSE IF q.k = "list" THEN a.code = 200 /\ ListIs(S, q, a.body)
  ELSE IF q.k = "agents" THEN a.code = 200 /\ AgentsAre(S, a.body)
  ELSE IF q.k = "file" THEN IF q.want = "" THEN IsError(a) ELSE a.code = 200 /\ a.text = (IF q.want = "nothing" THEN "" ELSE q.want)
  ELSE IF q.k = "status" THEN a.code = q.want
  ELSE FALSE
\* a refused or malformed request may be answered before its encoding is known
AnswerOK(S, q, a, now) == /\ a.wf /\ a.ended /\ Answered(S, q, a, now)
                          /\ (a.code # 0 => a.enc \in Encodings(q.enc) \cup {"none"})
                          /\ (q.k \in {"get", "multi", "list", "agents"} /\ a.code = 200 /\ q.enc = "gzip" => a.enc = "gzip")
=============================================================================
