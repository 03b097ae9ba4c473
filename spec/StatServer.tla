----------------------------- MODULE StatServer -----------------------------
(* The server's input side: what lines mean, how bytes become lines, the      *)
(* blacklist, the registry of agents, and what an agent forwards upstream.    *)
(* Text is a sequence of character codes. Values are in sixteenths.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions
LF == 10
\* stands for numbers too large to be told apart
Big == 2147483647
SP == 32
Hash == 35
Caret == 94
Dot == 46
Star == 42
Reserved == {64, 36, 37, 38, 59, 58}
IsSpace(c) == c \in {9, 10, 11, 12, 13, 32}
IsDigit(c) == c >= 48 /\ c <= 57

\* ------------------------------------------------------------- lines
\* where a byte occurs
Positions(s, c) == SelectSeq([j \in 1..Len(s) |-> j], LAMBDA j : s[j] = c)
\* complete lines (without their LF), and what is left
Cut(s) ==
  LET p == Positions(s, LF)
  IN [lines |-> [k \in 1..Len(p) |-> SubSeq(s, IF k = 1 THEN 1 ELSE p[k - 1] + 1, p[k] - 1)],
      rest |-> IF Len(p) = 0 THEN s ELSE SubSeq(s, p[Len(p)] + 1, Len(s))]
\* the parts of a line between white space
Fields(s) ==
  LET starts == SelectSeq([j \in 1..Len(s) |-> j], LAMBDA j : ~IsSpace(s[j]) /\ (j = 1 \/ IsSpace(s[j - 1])))
      ends == SelectSeq([j \in 1..Len(s) |-> j], LAMBDA j : ~IsSpace(s[j]) /\ (j = Len(s) \/ IsSpace(s[j + 1])))
  IN [k \in 1..Len(starts) |-> SubSeq(s, starts[k], ends[k])]
\* the pieces between occurrences of a character, empty ones included
Pieces(s, c) ==
  LET p == Positions(s, c)
      n == Len(p)
  IN [k \in 1..(n + 1) |-> SubSeq(s, IF k = 1 THEN 1 ELSE p[k - 1] + 1, IF k = n + 1 THEN Len(s) ELSE p[k] - 1)]
RECURSIVE Trim(_)
Trim(s) == IF Len(s) = 0 THEN s ELSE IF IsSpace(s[1]) THEN Trim(Tail(s))
           ELSE IF IsSpace(s[Len(s)]) THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
LowerChar(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Lower(s) == [j \in 1..Len(s) |-> LowerChar(s[j])]

\* ------------------------------------------------------------- numbers
Bad == [ok |-> FALSE, v |-> 0]
AllDigits(s) == \A j \in 1..Len(s) : IsDigit(s[j])
RECURSIVE Dec(_)
Dec(s) == IF Len(s) = 0 THEN 0 ELSE Dec(SubSeq(s, 1, Len(s) - 1)) * 10 + (s[Len(s)] - 48)
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 0 /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s
Unsigned(s) == IF Len(s) > 0 /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
Sign(s) == IF Len(s) > 0 /\ s[1] = 45 THEN 0 - 1 ELSE 1
\* an integer; one of ten digits or more is only known to be big
Int0(s) ==
  LET d == Unsigned(s)
      z == NoZeros(d)
  IN IF Len(d) = 0 \/ ~AllDigits(d) \/ Len(z) > 18 THEN Bad
     ELSE IF Len(z) > 10 \/ (Len(z) = 10 /\ z[1] # 49) THEN [ok |-> TRUE, v |-> Big]
     ELSE [ok |-> TRUE, v |-> Sign(s) * Dec(z)]
\* a count is not negative
Count(s) == IF Len(s) > 0 /\ s[1] = 45 THEN Bad ELSE Int0(s)
Nan == {<<110, 97, 110>>, <<78, 97, 78>>, <<45, 110, 97, 110>>, <<45, 78, 97, 78>>}
\* a value: [sign] digits [. digits] [e [sign] digits], in sixteenths
Mantissa(d) ==
  LET p == Pieces(d, Dot)
  IN IF Len(p) > 2 \/ ~(\A k \in 1..Len(p) : AllDigits(p[k])) \/ \A k \in 1..Len(p) : Len(p[k]) = 0 THEN Bad
     ELSE [ok |-> TRUE, v |-> Dec(p[1]) * 16 + (IF Len(p) = 1 \/ Len(p[2]) = 0 THEN 0 ELSE (Dec(p[2]) * 16) \div Pow10(Len(p[2])))]
Value(s) ==
  IF s \in Nan THEN [ok |-> TRUE, v |-> 0]
  ELSE LET d == Unsigned(s)
           e == SelectSeq([j \in 1..Len(d) |-> j], LAMBDA j : d[j] \in {69, 101})
       IN IF Len(e) = 0 THEN (LET m == Mantissa(d) IN [m EXCEPT !.v = Sign(s) * @])
          ELSE IF Len(e) > 1 THEN Bad
          ELSE LET m == Mantissa(SubSeq(d, 1, e[1] - 1))
                   x == Int0(SubSeq(d, e[1] + 1, Len(d)))
               IN IF ~m.ok \/ ~x.ok \/ x.v = Big THEN Bad
                  ELSE [ok |-> TRUE, v |-> Sign(s) * (IF x.v >= 0 THEN m.v * Pow10(x.v) ELSE m.v \div Pow10(0 - x.v))]

\* ------------------------------------------------------------- what a line does
\* a name with '^': what comes before the first, and each non-empty part after it; one that ends with '^'
\* stands for the part before, too
Expand(n) ==
  LET p == Pieces(n, Caret)
      base == p[1]
      mine == IF base = <<>> THEN <<>> ELSE Append(base, Dot)
      last == Len(p)
      mid == SelectSeq(SubSeq(p, 2, last), LAMBDA x : x # <<>>)
  IN IF last = 1 THEN <<n>>
     ELSE [k \in 1..Len(mid) |-> mine \o mid[k]] \o (IF p[last] = <<>> /\ base # <<>> THEN <<base>> ELSE <<>>)
\* the samples a line stands for: a = number of fields
Samples(line) ==
  LET f == Fields(line)
      n == IF Len(f) > 7 THEN 7 ELSE Len(f)
      names == Expand(f[1])
      all(r) == [k \in 1..Len(names) |-> [n |-> names[k]] @@ r]
  IN IF n = 2 THEN LET v == Value(f[2]) IN IF v.ok THEN all([a |-> 2, v |-> v.v]) ELSE <<>>
     ELSE IF n = 3 THEN LET t == Int0(f[2])
                            v == Value(f[3])
                        IN IF t.ok /\ v.ok THEN all([a |-> 3, t |-> t.v, v |-> v.v]) ELSE <<>>
     ELSE IF n = 7 THEN LET t == Int0(f[2])
                            v == Value(f[3])
                            q == Value(f[4])
                            mn == Value(f[5])
                            mx == Value(f[6])
                            c == Count(f[7])
                        IN IF t.ok /\ v.ok /\ q.ok /\ mn.ok /\ mx.ok /\ c.ok
                           THEN all([a |-> 7, t |-> t.v, v |-> v.v, q |-> q.v, mn |-> mn.v, mx |-> mx.v, c |-> c.v]) ELSE <<>>
     ELSE <<>>
LineKind(line) == IF Len(line) = 0 THEN "empty" ELSE IF line[1] = Hash THEN "meta" ELSE IF line[1] \in Reserved THEN "reserved" ELSE "counter"
\* "#name value"
IsMeta(line) == LineKind(line) = "meta" /\ \E j \in 1..Len(line) : line[j] = SP
MetaCut(line) == Min({j \in 1..Len(line) : line[j] = SP})
MetaKey(line) == Tail(Trim(SubSeq(line, 1, MetaCut(line) - 1)))
MetaValue(line) == Trim(SubSeq(line, MetaCut(line) + 1, Len(line)))

\* ------------------------------------------------------------- one sender
\* buf: bytes of a line not complete yet; attrs: what it said about itself; dead: turned away
NewSender == [buf |-> <<>>, attrs |-> <<>>, dead |-> FALSE]
HostKey == <<104, 111, 115, 116, 110, 97, 109, 101>>
Listed(attrs, list) == HostKey \in DOMAIN attrs /\ Lower(attrs[HostKey]) \in list
\* out: what the lines do: [recs, metas]
RECURSIVE Take(_, _, _, _)
Take(s, lines, list, out) ==
  IF lines = <<>> \/ s.dead THEN <<s, out>>
  ELSE IF Listed(s.attrs, list) THEN <<[s EXCEPT !.dead = TRUE], out>>
  ELSE LET l == lines[1]
       IN IF IsMeta(l) THEN Take([s EXCEPT !.attrs = (MetaKey(l) :> MetaValue(l)) @@ @], Tail(lines), list,
                                 [out EXCEPT !.metas = Append(@, l)])
          ELSE Take(s, Tail(lines), list, IF LineKind(l) = "counter" THEN [out EXCEPT !.recs = @ \o Samples(l)] ELSE out)
NoOutput == [recs |-> <<>>, metas |-> <<>>]
\* bytes from a connection
Bytes(s, b, list) ==
  LET cut == Cut(s.buf \o b)
      r == Take(s, cut.lines, list, NoOutput)
  IN <<[r[1] EXCEPT !.buf = cut.rest], r[2]>>
\* datagrams: each for itself, and only if it is whole
RECURSIVE Datagrams(_, _, _)
Datagrams(s, ds, out) ==
  IF ds = <<>> THEN <<s, out>>
  ELSE LET d == ds[1]
           good == Len(d) >= 5 /\ d[Len(d)] = LF
           r == Take(s, IF good THEN Cut(d).lines ELSE <<>>, {}, out)
       IN Datagrams(r[1], Tail(ds), r[2])

\* ------------------------------------------------------------- forwarding
\* pending: name -> [base, b: interval -> bucket]; only intervals near the first sample's arrival are taken
AlignDown(t) == t - (t % 10)
\* squares that a float does not hold exactly are only known to be big
BigQ == 16000000
Square(v) == IF v >= 16000 \/ v <= 0 - 16000 THEN Big ELSE (v * v) \div 16
CapQ(q) == IF q = Big THEN q ELSE IF q >= BigQ THEN Big ELSE q
AddQ(a, b) == IF a = Big \/ b = Big THEN Big ELSE CapQ(a + b)
Merge(x, y) == [t |-> x.t, v |-> x.v + y.v, q |-> AddQ(x.q, y.q), mn |-> IF x.mn < y.mn THEN x.mn ELSE y.mn,
                mx |-> IF x.mx > y.mx THEN x.mx ELSE y.mx, c |-> x.c + y.c]
AsBucket(r, now) ==
  LET t == IF r.a = 2 THEN now ELSE IF r.t = 0 THEN now ELSE r.t
  IN IF r.a = 7 THEN [t |-> t, v |-> r.v, q |-> CapQ(r.q), mn |-> r.mn, mx |-> r.mx, c |-> r.c]
     ELSE [t |-> t, v |-> r.v, q |-> Square(r.v), mn |-> r.v, mx |-> r.v, c |-> 1]
InWindow(base, t) == t # Big /\ t > 0 /\ AlignDown(t) - base >= 0 - 30 /\ AlignDown(t) - base <= 10
Pend(P, r, now) ==
  LET x == AsBucket(r, now)
      p == IF r.n \in DOMAIN P THEN P[r.n] ELSE [base |-> AlignDown(now), b |-> <<>>]
      a == AlignDown(x.t)
  IN (r.n :> IF InWindow(p.base, x.t)
             THEN [p EXCEPT !.b = (a :> IF a \in DOMAIN @ THEN Merge(@[a], x) ELSE x) @@ @] ELSE p) @@ P
RECURSIVE PendAll(_, _, _)
PendAll(P, rs, now) == IF rs = <<>> THEN P ELSE PendAll(Pend(P, rs[1], now), Tail(rs), now)
\* the lines pending samples make
UpLine(n, x) == IF Len(n) > 0 /\ n[1] = Star THEN [k |-> "e", n |-> n, t |-> x.t, v |-> x.v]
                ELSE [k |-> "g", n |-> n, t |-> x.t, v |-> x.v, q |-> x.q, mn |-> x.mn, mx |-> x.mx, c |-> x.c]
UpLines(P) == UNION {{UpLine(n, P[n].b[a]) : a \in DOMAIN P[n].b} : n \in DOMAIN P}
=============================================================================
