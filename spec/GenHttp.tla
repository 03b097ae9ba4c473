------------------------------ MODULE GenHttp -------------------------------
(* Requests of every kind, alone and together, whole and in pieces.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS DEPTH
VARIABLES nc, now, ops
vars == <<nc, now, ops>>
One(X) == {RandomElement(X)}
Pick(X) == RandomElement(X)
T(t, v) == [t |-> t, v |-> v]
None == T("", -3)
Base == 1000000000
\* times: about what the counters hold, and the odd ones
Num(v) == T(ToString(v), v)
Good(z) == Num(Base + Pick({0, 5, 10, 60, 95, 100, 150, 200, 240, 300, 1000}))
Time(z) == IF Pick(1..12) > 3 THEN Good(z) ELSE Pick({None, None, T("0", 0), T("-5", -1), T("x", -2), T("", -2), T("1.5", -2), T("99999999999999999999", -2), T(" 7", -2), T("1000000060", Base + 60)})
Start(z) == IF Pick(1..2) = 1 THEN Num(Base + Pick({0, 5, 10, 60})) ELSE Time(z)
End(z) == IF Pick(1..2) = 1 THEN Num(Base + Pick({100, 150, 200, 300, 1000})) ELSE Time(z)
Samples(z) == IF Pick(1..8) > 1 THEN Pick({None, None, T("1", 1), T("5", 5), T("10", 10), T("20", 20), T("100", 100)}) ELSE Pick({T("0", 0), T("-1", -1), T("many", -2), T("1e3", -2)})
\* names the store may know, and others
Names == {"a", "b.c", "b.d", "A", "x.y.z", "it's", "quo\"ted", "back\\slash", "none", "no.such", ""}
Encs == {"", "", "", "gzip", "deflate", "gzip, deflate", "deflate, gzip", "*", "identity", "gzip;q=0", "gzip;q=0, deflate", "gzip;q=0.5, deflate;q=0.8", "deflate;q=0.5,gzip;q=0.2", "foo"}
Common(k, z) == [k |-> k, enc |-> IF Pick(1..3) = 1 THEN Pick(Encs) ELSE "", cut |-> Pick(0..5), hc |-> Pick(0..2), fin |-> Pick(0..3) = 0]
Get(z) == Common("get", z) @@ [name |-> Pick(Names \ {""}), start |-> Start(z), end |-> End(z), samples |-> Samples(z),
             trailing |-> (IF Pick(1..5) > 1 THEN Pick({None, T("0", 0), T("1", 1)}) ELSE Pick({T("-1", -1), T("yes", -2)})),
             format |-> Pick({"", "", "json", "csv", "csv", "other"}), swap |-> Pick(0..1)]
\* in a document the text is a JSON value
JTime(z) == IF Pick(1..10) > 1 THEN Good(z) ELSE Pick({None, T("null", 0), T("-5", -1), T("\"x\"", -2), T("[]", -2), T("99999999999999999999", -2)})
JStart(z) == IF Pick(1..3) > 1 THEN Num(Base + Pick({0, 5, 10, 60})) ELSE JTime(z)
JEnd(z) == IF Pick(1..3) > 1 THEN Num(Base + Pick({100, 150, 200, 300, 1000})) ELSE JTime(z)
JKey(z) == LET n == Pick(Names) IN IF Pick(1..40) = 1 THEN [n |-> "", ok |-> FALSE] ELSE [n |-> n, ok |-> TRUE]
JKeys(z) == [j \in 1..Pick(0..6) |-> JKey(j)]
Multi(z) == Common("multi", z) @@ [doc |-> (IF Pick(1..10) > 1 THEN "object" ELSE Pick({"garbage", "array", "empty", "text"})),
             cl |-> (IF Pick(1..9) > 1 THEN "ok" ELSE Pick({"none", "bad", "neg", "huge", "more"})),
             start |-> JStart(z), end |-> JEnd(z), samples |-> (IF Pick(1..7) > 1 THEN Pick({None, T("1", 1), T("5", 5), T("20", 20), T("0", 0)}) ELSE Pick({T("-3", -1), T("\"x\"", -2)})),
             keys |-> (IF Pick(1..12) > 1 THEN "array" ELSE "none"), names |-> JKeys(z), trailing |-> Pick({"", "0", "1"}), compact |-> Pick({"", "true", "false"}),
             url |-> Pick({"/*", "/*", "/%2A", "/%2a"})]
List(z) == Common("list", z) @@ [pat |-> Pick((Names \ {""}) \cup {"*", "*"})]
Agents(z) == Common("agents", z)
FileTable == {<<"/", "the index">>, <<"/files/index.html", "the index">>, <<"/files/a.txt", "file a">>, <<"/files/sub/b.txt", "file b">>, <<"/files/sub.b.txt", "file b">>,
          <<"/files/../secret", "">>, <<"/files//../secret", "">>, <<"/files/..", "">>, <<"/files/", "">>, <<"/files/none", "">>, <<"/files/empty.js", "nothing">>,
          <<"/?f=a.txt", "file a">>, <<"/?f=../secret", "">>, <<"/?f=..%2fsecret", "">>, <<"/?f=sub/b.txt", "file b">>, <<"/?f", "">>, <<"/?f=", "">>, <<"/?_=1&f=a.txt", "file a">>, <<"/?f=a.txt&_=2", "file a">>,
          <<"/files/../../../../../../etc/passwd", "">>, <<"/?f=/etc/passwd", "">>}
File(z) == LET f == Pick(FileTable) IN Common("file", z) @@ [url |-> f[1], want |-> f[2]]
StatusTable == {<<"OPTIONS", "/*", 204>>, <<"PUT", "/a", 405>>, <<"HEAD", "/a", 405>>, <<"DELETE", "/a", 405>>, <<"POST", "/a", 404>>, <<"POST", "/", 404>>, <<"GET", "/?s=..%2fx", 400>>, <<"get", "/", 405>>}
Status(z) == LET f == Pick(StatusTable) IN Common("status", z) @@ [method |-> f[1], url |-> f[2], want |-> f[3]]
RawTable == {<<"\r\n\r\n", "error">>, <<"GET\r\n\r\n", "error">>, <<"GET / HTTP/1.1\r\n\r\n", "error">>, <<"GET /\r\nHost: x\r\n\r\n", "any">>, <<"garbage\r\nHost: x\r\n\r\n", "error">>,
         <<" / HTTP/1.1\r\nHost: x\r\n\r\n", "error">>, <<"GET  HTTP/1.1\r\nHost: x\r\n\r\n", "any">>, <<"\r\nGET / HTTP/1.1\r\nHost: x\r\n\r\n", "any">>, <<"POST /* HTTP/1.1\r\n\r\n", "error">>,
         <<"big", "error">>, <<"unended", "error">>, <<"GET ?a=1 HTTP/1.1\r\nHost: x\r\n\r\n", "error">>}
Raw(z) == LET f == Pick(RawTable) IN Common("raw", z) @@ [text |-> f[1], want |-> f[2]]
Req(z) == LET k == Pick(1..24)
          IN IF k <= 7 THEN Get(z) ELSE IF k <= 14 THEN Multi(z) ELSE IF k = 15 THEN Agents(z) ELSE IF k <= 17 THEN List(z) ELSE IF k <= 19 THEN File(z) ELSE IF k <= 21 THEN Status(z) ELSE IF k <= 23 THEN Raw(z) ELSE Get(z)
Emit(x) == ops' = Append(ops, x)
Held(m, n) == [j \in 1..n |-> LET k == Pick({1, 2, 4}) s == k * Pick({1, 3, 250, 123457, 3086419}) IN <<Base + 10 * (m + 2 * j), k, s, Pick({1, 77, 1234567, 98765432}), Pick({-5, 0, 7}), Pick({8, 1234567, 16777216})>>]
NameSets == {<<"a", "A">>, <<"b.c">>, <<"b.d", "x.y.z">>, <<"it's">>, <<"quo\"ted", "back\\slash">>}
Ctr == \E ns \in One({n \in NameSets : \A j \in 1..Len(ops) : ops[j].o = "ctr" => ops[j].names # n}), m \in One(0..10), n \in One({0, 1, 3, 8}), b \in One(1..6) :
  Emit([o |-> "ctr", names |-> ns, held |-> Held(m, n), broken |-> IF b = 1 THEN 1 ELSE 0]) /\ nc' = nc + 1 /\ UNCHANGED now
Attrs == {<<<<"hostname", "alpha">>>>, <<<<"hostname", "it's \"here\"">>, <<"version", "1.2">>>>, <<<<"os", "back\\slash">>, <<"who", "me and\tyou">>>>}
Agent == \E a \in One(Attrs) : Emit([o |-> "agent", attrs |-> a]) /\ UNCHANGED <<nc, now>>
Tick == \E n \in One({1, 7, 60, 500}) : Emit([o |-> "tick", by |-> n]) /\ now' = now + n /\ UNCHANGED nc
Ask == \E th \in One({0, 1, 3}), n \in One({1, 2, 4, 8}) : Emit([o |-> "ask", th |-> th, rs |-> [j \in 1..n |-> Req(j)]]) /\ UNCHANGED <<nc, now>>
Init == \E s \in 1..25 : nc = 0 /\ now = 0 /\ ops = <<[o |-> "new", prom |-> 0, store |-> IF s = 1 THEN 0 ELSE 1, z |-> s]>>
Step == \E k \in One(1..12) : IF Len(ops) < 4 /\ nc < 3 THEN Ctr ELSE IF k = 1 /\ nc < 5 THEN Ctr ELSE IF k = 2 /\ Cardinality({j \in 1..Len(ops) : ops[j].o = "agent"}) < 3 THEN Agent ELSE IF k = 3 THEN Tick ELSE Ask
Done == PrintT("VPGEN " \o ToJson(ops)) /\ Emit([o |-> "end"]) /\ UNCHANGED <<nc, now>>
Next == IF Len(ops) < DEPTH THEN Step ELSE Len(ops) = DEPTH /\ Done
Spec == Init /\ [][Next]_vars
=============================================================================
