------------------------------- MODULE GenConfig -----------------------------
(* Texts of configurations: most of them good, or nearly so.                   *)
EXTENDS Config, TLC, Json
CONSTANTS DEPTH
VARIABLES ops
P(X) == RandomElement(X)
One(X) == {RandomElement(X)}
\* (parameters keep TLC from choosing once and for all)
Num(z) == P({x \in {"1", "1", "2", "5", "10", "10", "007", "59", "60", "90", "100", "3600", "0", "00"} : z >= 0})
\* years are few, as TLC counts to two thousand million
Item(z) == LET u == P({x \in {"s", "m", "h", "d", "y"} : z >= 0}) IN T(IF u = "y" THEN P({x \in {"1", "2", "5", "0"} : z >= 0}) ELSE IF u = "d" THEN P({x \in {"1", "10", "365", "400"} : z >= 0}) ELSE Num(z)) \o T(u)
Odd(z) == T(P({x \in {"", "s", "10", "10x", "1ms", "1s2", " 1s", "1s ", "-1s", "1.5s", "1S", "m5s", "10ss", "1s,", "+1s", "1h:", "0x10s"} : z >= 0}))
Time(z) == LET k == P({x \in 1..20 : z >= 0}) IN IF k = 1 THEN Odd(z) ELSE IF k <= 14 THEN Item(z) ELSE IF k <= 18 THEN Item(z) \o Item(z + 1) ELSE Item(z) \o Item(z + 1) \o Item(z + 2)
Iv(z) == LET k == P({x \in 1..12 : z >= 0}) IN IF k = 1 THEN Time(z) ELSE T(P({x \in {"1s", "5s", "10s", "10s", "1m", "1m", "60s", "5m", "1h", "1h30m", "1d"} : z >= 0}))
Ret(z) == LET k == P({x \in 1..12 : z >= 0}) IN IF k = 1 THEN Time(z) ELSE T(P({x \in {"5s", "59s", "60s", "1h", "3601s", "1d", "10d", "1y", "2y3d"} : z >= 0}))
Name(z) == T(P({x \in {"a", "b", "10s", "1m", "ma-1h", "", ""} : z >= 0}))
Lam(z) == T(P({x \in {"0.5", "0.5", "0.875", ".25", "1e-1", "5E-1", "", "0", "1", "1.0", "0.0", "-0.5", "1.5", "x", "0.5x", "0.5 ", "nan", "inf", "0.5:", "0.5:x", "1e-1:0.5"} : z >= 0}))
Piece(z) == LET k == P({x \in 1..12 : z >= 0}) IN Iv(z) \o (IF k = 1 THEN <<>> ELSE T(":") \o Ret(z) \o (IF k <= 7 THEN <<>> ELSE T(":") \o Name(z) \o (IF k <= 9 THEN <<>> ELSE T(":") \o Lam(z))))
Policies(z) == LET k == P({x \in 1..12 : z >= 0}) IN
  IF k = 1 THEN T(P({x \in {"", ",", "10s:1h,", ",10s:1h", "10s:1h,,1m:1d", "10s", "10s:1h:", "10s:1h::", ":", "::::", "10s:1h,5m:1d,1h:1y,1m:1h:ma-1h:0.875"} : z >= 0}))
  ELSE IF k <= 5 THEN Piece(z) ELSE IF k <= 9 THEN Piece(z) \o T(",") \o Piece(z + 1) ELSE Piece(z) \o T(",") \o Piece(z + 1) \o T(",") \o Piece(z + 2)
Keys(z) == T(P({x \in {"--num", "--num", "--other", "--str", "--str", "--flag"} : z >= 0}))
BadKeys(z) == T(P({x \in {"--nope", "num", "-num", "--", "--numb", "--fla", "--flags", "--Num", "x", "-"} : z >= 0}))
Vals(z) == T(P({x \in {"0", "7", "42", "-3", "+4", "007", "123456", "7", "42", "10s:1h", "abc", "\"q\"", "--flag", "--num"} : z >= 0}))
BadVals(z) == T(P({x \in {"", "7x", "1.5", "x", "--5", "1e3", "+", "-", "0x1"} : z >= 0}))
Val(z) == IF P({x \in 1..10 : z >= 0}) = 1 THEN BadVals(z) ELSE Vals(z)
Pair(z) == LET k == IF P({x \in 1..14 : z >= 0}) = 1 THEN BadKeys(z) ELSE Keys(z) IN IF k = T("--flag") \/ P({x \in 1..20 : z >= 0}) = 1 THEN <<k>> ELSE <<k, Val(z)>>
RECURSIVE Pairs(_)
Pairs(n) == IF n = 0 THEN <<>> ELSE Pair(n) \o Pairs(n - 1)
Sp(z) == P({x \in {<<>>, <<>>, <<32>>, <<9>>, <<32, 32>>, <<13>>} : z >= 0})
\* in a file values may have spaces in them, and be quoted
FileVal(z) == LET k == P({x \in 1..8 : z >= 0}) IN IF k = 1 THEN T("a b") ELSE IF k = 2 THEN T("\"a b \"") ELSE IF k = 3 THEN T("\"") ELSE IF k = 4 THEN T("\"\"") ELSE IF k = 5 THEN T("# no") ELSE Val(z)
FileLine(z) == LET k == P({x \in 1..14 : z >= 0}) IN
  IF k = 1 THEN Sp(z) ELSE IF k = 2 THEN T(P({x \in {"# --num 5", "#", "  # x", "--str", "--num", "--flag", "num 5"} : z >= 0}))
  ELSE IF k = 3 THEN Sp(z) \o BadKeys(z) \o <<32>> \o Val(z)
  ELSE IF k <= 5 THEN Sp(z) \o T("--flag") \o Sp(z)
  ELSE Sp(z) \o T(P({x \in {"--num", "--other", "--str", "--str"} : z >= 0})) \o <<32>> \o Sp(z) \o FileVal(z) \o Sp(z + 1)
RECURSIVE FileText(_)
FileText(n) == IF n = 0 THEN <<>> ELSE FileLine(n) \o (IF n = 1 /\ P({x \in 1..3 : n >= 0}) = 1 THEN <<>> ELSE <<10>>) \o FileText(n - 1)
Init == ops = <<>>
Emit(x) == ops' = Append(ops, x)
Step == \E k \in One(1..10), n \in One(0..5) :
  CASE k = 1 -> Emit([o |-> "time", s |-> Time(n)])
    [] k = 2 -> Emit([o |-> "write", n |-> P({x \in {0, 1, 59, 60, 61, 3599, 3600, 86399, 86400, 90061, 31535999, 31536000, 31536001, 40000000, P(0..100000), P(0..2000000000)} : n >= 0})])
    [] k \in 3..6 -> Emit([o |-> "ret", s |-> Policies(n)])
    [] k \in 7..8 -> Emit([o |-> "args", a |-> Pairs(n)])
    [] OTHER -> Emit([o |-> "file", s |-> FileText(n)])
Done == PrintT("VPGEN " \o ToJson(ops)) /\ Emit([o |-> "end"])
Next == IF Len(ops) < DEPTH THEN Step ELSE Len(ops) = DEPTH /\ Done
Spec == Init /\ [][Next]_ops
=============================================================================
