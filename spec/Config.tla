-------------------------------- MODULE Config -------------------------------
(* What configuration texts mean: lengths of time, retention policies, options *)
(* on the command line and in a file. Texts are sequences of character codes.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Text
T(s) == Codes(s)
IsDigit(c) == c >= 48 /\ c <= 57
\* ---- lengths of time
Units == <<[u |-> 121, n |-> 31536000], [u |-> 100, n |-> 86400], [u |-> 104, n |-> 3600], [u |-> 109, n |-> 60], [u |-> 115, n |-> 1]>>
IsUnit(c) == \E k \in 1..5 : Units[k].u = c
UnitLen(c) == Units[CHOOSE k \in 1..5 : Units[k].u = c].n
RECURSIVE Number(_)
Number(s) == IF s = <<>> THEN 0 ELSE Number(SubSeq(s, 1, Len(s) - 1)) * 10 + (s[Len(s)] - 48)
IsTime(s) == s # <<>> /\ IsUnit(s[Len(s)]) /\ \A k \in 1..Len(s) : IsDigit(s[k]) \/ (IsUnit(s[k]) /\ k > 1 /\ IsDigit(s[k - 1]))
UnitAt(s) == {k \in 1..Len(s) : IsUnit(s[k])}
FromOf(s, k) == LET before == {j \in UnitAt(s) : j < k} IN IF before = {} THEN 1 ELSE (CHOOSE j \in before : \A i \in before : i <= j) + 1
TimeOf(s) == FoldSeq(LAMBDA k, n : n + Number(SubSeq(s, FromOf(s, k), k - 1)) * UnitLen(s[k]), 0, SetToSeq(UnitAt(s)))
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE WriteFrom(_, _)
WriteFrom(n, k) == IF k > 5 THEN <<>> ELSE IF n >= Units[k].n THEN Dec(n \div Units[k].n) \o <<Units[k].u>> \o WriteFrom(n % Units[k].n, k + 1) ELSE WriteFrom(n, k + 1)
WriteTime(n) == IF n = 0 THEN T("0s") ELSE WriteFrom(n, 1)
\* ---- retention policies
RECURSIVE SplitAt(_, _, _)
\* pieces between the separators, at most mx of them
SplitAt(s, sep, mx) == LET at == {k \in 1..Len(s) : s[k] = sep} IN
  IF at = {} \/ mx = 1 THEN <<s>> ELSE LET k == CHOOSE k \in at : \A j \in at : k <= j IN <<SubSeq(s, 1, k - 1)>> \o SplitAt(SubSeq(s, k + 1, Len(s)), sep, mx - 1)
Parts(s) == LET p == SplitAt(s, 44, 1000) IN IF p[Len(p)] = <<>> THEN SubSeq(p, 1, Len(p) - 1) ELSE p
\* decays, in millionths; those not here are none
Decays == [x \in {T("0.5"), T("0.875"), T(".25"), T("1e-1"), T("5E-1")} |->
  CASE x = T("0.5") -> 500000 [] x = T("0.875") -> 875000 [] x = T(".25") -> 250000 [] x = T("1e-1") -> 100000 [] OTHER -> 500000]
BadPart == [ok |-> FALSE]
Part(p) ==
  LET f == SplitAt(p, 58, 4)
      lam == IF Len(f) < 4 THEN <<>> ELSE f[4]
  IN IF Len(f) < 2 THEN BadPart
     ELSE IF ~IsTime(f[1]) \/ ~IsTime(f[2]) THEN BadPart
     ELSE IF TimeOf(f[1]) = 0 \/ TimeOf(f[2]) < TimeOf(f[1]) THEN BadPart
     ELSE IF lam # <<>> /\ lam \notin DOMAIN Decays THEN BadPart
     ELSE [ok |-> TRUE, iv |-> TimeOf(f[1]), n |-> TimeOf(f[2]) \div TimeOf(f[1]), name |-> IF Len(f) < 3 \/ f[3] = <<>> THEN f[1] ELSE f[3],
           lam |-> IF lam = <<>> THEN 0 ELSE Decays[lam]]
Policy(s) == [j \in 1..Len(Parts(s)) |-> Part(Parts(s)[j])]
PolicyOK(p) == /\ \A j \in 1..Len(p) : p[j].ok
               /\ \A j \in 2..Len(p) : p[j].lam = 0 => p[j - 1].lam = 0 /\ p[j - 1].iv < p[j].iv
               /\ \A i, j \in 1..Len(p) : i # j => p[i].name # p[j].name
\* ---- options: two numbers, a text, a flag
NewOptions == [num |-> 1, other |-> 2, str |-> T("s"), flag |-> FALSE]
IsInt(s) == LET d == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s IN d # <<>> /\ \A k \in 1..Len(d) : IsDigit(d[k])
IntOf(s) == IF s[1] = 45 THEN -Number(Tail(s)) ELSE IF s[1] = 43 THEN Number(Tail(s)) ELSE Number(s)
\* one option: [n |-> how many texts it took, o |-> options]; none taken: it was refused
None(o) == [n |-> 0, o |-> o]
Option(o, a) ==
  IF Len(a[1]) < 3 \/ SubSeq(a[1], 1, 2) # T("--") THEN None(o)
  ELSE LET key == SubSeq(a[1], 3, Len(a[1])) IN
    IF key = T("flag") THEN [n |-> 1, o |-> [o EXCEPT !.flag = TRUE]]
    ELSE IF Len(a) < 2 THEN None(o)
    ELSE IF key = T("str") THEN [n |-> 2, o |-> [o EXCEPT !.str = a[2]]]
    ELSE IF key \in {T("num"), T("other")} /\ IsInt(a[2]) THEN [n |-> 2, o |-> IF key = T("num") THEN [o EXCEPT !.num = IntOf(a[2])] ELSE [o EXCEPT !.other = IntOf(a[2])]]
    ELSE None(o)
RECURSIVE Options(_, _, _)
\* at: the first text that was not taken
Options(o, a, at) ==
  IF a = <<>> THEN [at |-> at, o |-> o]
  ELSE IF a[1] = T("--") THEN [at |-> at + 1, o |-> o]
  ELSE LET r == Option(o, a) IN IF r.n = 0 THEN [at |-> at, o |-> o] ELSE Options(r.o, SubSeq(a, r.n + 1, Len(a)), at + r.n)
\* ---- a file of options
Space(c) == c = 32 \/ (c >= 9 /\ c <= 13)
Trim(s) == LET k == {j \in 1..Len(s) : ~Space(s[j])} IN
  IF k = {} THEN <<>> ELSE SubSeq(s, CHOOSE j \in k : \A i \in k : j <= i, CHOOSE j \in k : \A i \in k : j >= i)
Unquote(s) == IF Len(s) >= 2 /\ s[1] = 34 /\ s[Len(s)] = 34 THEN SubSeq(s, 2, Len(s) - 1) ELSE s
LineOf(o, line) ==
  LET x == Trim(line)
      f == SplitAt(x, 32, 2)
  IN IF x = <<>> \/ x[1] = 35 THEN [ok |-> TRUE, o |-> o]
     ELSE LET r == IF Len(f) = 1 THEN (IF x = T("--flag") THEN Option(o, <<x>>) ELSE None(o)) ELSE Option(o, <<f[1], Unquote(Trim(f[2]))>>)
          IN [ok |-> r.n > 0, o |-> r.o]
RECURSIVE Lines(_, _, _)
Lines(o, ls, k) == IF ls = <<>> THEN [ok |-> TRUE, line |-> 0, o |-> o]
  ELSE LET r == LineOf(o, ls[1]) IN IF ~r.ok THEN [ok |-> FALSE, line |-> k, o |-> o] ELSE Lines(r.o, Tail(ls), k + 1)
File(o, s) == Lines(o, SplitAt(s, 10, 1000), 1)
=============================================================================
