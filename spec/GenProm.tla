------------------------------ MODULE GenProm -------------------------------
(* Counters and gauges with and without labels, scraped while they come in,    *)
(* with time passing.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS DEPTH
VARIABLES now, known, ops
vars == <<now, known, ops>>
One(X) == {RandomElement(X)}
Pick(X) == RandomElement(X)
BaseNames == {<<"foo.bar", "foo_bar">>, <<"9lives", "_9lives">>, <<"Foo-Bar", "foo_bar">>, <<"x", "x">>, <<"req:s/sec", "req_s_sec">>}
Tag(r, ok, k, v, m) == [r |-> r, ok |-> ok, k |-> k, v |-> v, m |-> m]
TagSet == {Tag("host.a", TRUE, "host", "a", ""), Tag("host.b", TRUE, "host", "b", ""), Tag("role.web.1", TRUE, "role", "web.1", ""), Tag("proxy-pool.p", TRUE, "proxy_pool", "p", ""),
         Tag("Cluster.c", TRUE, "cluster", "c", ""), Tag("class.it\"s", TRUE, "class", "it\"s", ""), Tag("pool.back\\slash", TRUE, "pool", "back\\slash", ""),
         Tag("other.z", FALSE, "", "", "other_z"), Tag("plain", FALSE, "", "", "plain"), Tag("host", FALSE, "", "", "host")}
Tags(n) == [j \in 1..n |-> Pick(TagSet)]
CaretJoined(ts) == FoldSeq(LAMBDA t, s : s \o "^" \o t.r, "", ts)
NoTwice(ts) == \A i, j \in 1..Len(ts) : i # j => ts[i] # ts[j]
Line(z) == LET ev == Pick(1..3) > 1 b == Pick(BaseNames) n == Pick(0..4)
               ts == IF Pick(1..3) = 1 THEN <<>> ELSE SelectSeq(Tags(n), LAMBDA t : TRUE)
               us == IF NoTwice(ts) THEN ts ELSE SubSeq(ts, 1, 1)
               base == (IF ev THEN "*" ELSE "") \o b[1]
           IN [raw |-> base \o CaretJoined(us), base |-> base, n |-> b[2], ev |-> ev, tags |-> us,
               t |-> IF Pick(1..3) = 1 THEN now + 1000000200 - Pick({0, 3, 29, 31, 100}) ELSE 0, v |-> Pick({0, 1, 5, 1000, 1234567, 10000001})]
Again(z) == LET k == Pick(DOMAIN known) IN [known[k] EXCEPT !.v = Pick({1, 2, 30}), !.t = 0]
LinesOf(n) == [j \in 1..n |-> IF known # <<>> /\ Pick(1..3) = 1 THEN Again(j) ELSE Line(j)]
Emit(x) == ops' = Append(ops, x)
Feed == \E n \in One(1..6) : \E xs \in {LinesOf(n)} : Emit([o |-> "feed", x |-> xs]) /\ known' = SubSeq(xs \o known, 1, IF Len(xs \o known) < 8 THEN Len(xs \o known) ELSE 8) /\ UNCHANGED now
Tick == \E n \in One({1, 4, 5, 10, 29, 31, 61, 100}) : Emit([o |-> "tick", by |-> n]) /\ now' = now + n /\ UNCHANGED known
Scrape(z) == [k |-> "scrape", enc |-> IF Pick(1..4) = 1 THEN "gzip" ELSE "", cut |-> Pick(0..4), hc |-> Pick(0..2), fin |-> FALSE, method |-> "GET", url |-> "/metrics"]
Odd(z) == [Scrape(z) EXCEPT !.method = Pick({"GET", "GET", "POST", "PUT", "OPTIONS"}), !.url = Pick({"/", "/metrics/", "/metrics?x=1", "/Metrics", "/*"})]
Requests(n) == [j \in 1..n |-> IF Pick(1..8) = 1 THEN Odd(j) ELSE Scrape(j)]
Ask == \E th \in One({0, 1, 2}), n \in One(1..3) : Emit([o |-> "ask", th |-> th, rs |-> Requests(n), feeds |-> <<>>]) /\ UNCHANGED <<now, known>>
Burst == \E th \in One({2, 3}), n \in One(1..3), f \in One(2..3) : \E xs \in {[j \in 1..f |-> [i \in 1..40 |-> IF known # <<>> /\ Pick(1..10) > 1 THEN Again(i) ELSE Line(i)]]} :
  Emit([o |-> "ask", th |-> th, rs |-> Requests(n), feeds |-> xs]) /\ UNCHANGED <<now, known>>
Init == \E p \in 1..20 : now = 0 /\ known = <<>> /\ ops = <<[o |-> "new", prom |-> IF p = 1 THEN 0 ELSE 1, store |-> 1, z |-> p]>>
Step == \E k \in One(1..20) : IF k <= 8 THEN Feed ELSE IF k <= 12 THEN Tick ELSE IF k <= 18 THEN Ask ELSE Burst
Final == \E k \in One(1..4) : IF Len(ops) = DEPTH - 1 THEN Emit([o |-> "ask", th |-> 0, rs |-> <<Scrape(1)>>, feeds |-> <<>>]) /\ UNCHANGED <<now, known>>
                             ELSE IF k = 1 THEN Emit([o |-> "tick", by |-> Pick({86000, 90000, 180000})]) /\ UNCHANGED <<now, known>> ELSE Feed
Done == PrintT("VPGEN " \o ToJson(ops)) /\ Emit([o |-> "end"]) /\ UNCHANGED <<now, known>>
Next == IF Len(ops) < DEPTH - 2 THEN Step ELSE IF Len(ops) < DEPTH THEN Final ELSE Len(ops) = DEPTH /\ Done
Spec == Init /\ [][Next]_vars
=============================================================================
