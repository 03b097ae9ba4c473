----------------------------- MODULE GenSettings ----------------------------
(* Histories of settings: set, read, flushed, edited by hand, held, saved     *)
(* late, failing and dying while saved, and used by several at once.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, Text
CONSTANTS DEPTH, PROFILE
VARIABLES held, edited, ops
vars == <<held, edited, ops>>
One(X) == {RandomElement(X)}
Pick(sq) == {sq[RandomElement(1..Len(sq))]}
Names == <<Codes("set"), Codes("set"), Codes("set"), Codes("a.b-c"), Codes("Set_2"), Codes(".hid")>>
BadNames == <<Codes("../out"), Codes("/etc/x"), Codes("a/b"), Codes("a b"), Codes("sub/../../out"), Codes("a*"), <<120, 37, 50, 102>>, Codes("..\\out")>>
Keys == <<Codes("a"), Codes("a"), Codes("a.b"), Codes("a.bc"), Codes("ab.c"), Codes("b"), Codes("b.a.c"), Codes("x_y,z"), Codes("A"), Codes("1<2>"), Codes("a.b.c.d"), <<>>, Codes("@k!"), <<195, 164, 46, 97>>>>
BadKeys == <<Codes("a b"), Codes("#c"), Codes("k=v"), Codes("a/b"), Codes("*"), Codes("q?"), Codes("x:y"), <<11, 97>>, <<97, 12>>, <<97, 10, 98>>, Codes("a-b"), Codes("k\"")>>
Values(x) == <<Codes("v1"), Codes("v2"), Codes("v3"), <<>>, <<>>, Codes("1"), Codes(" lead"), Codes("trail "), Codes(" "), Codes("   "), Codes("a b  c"), Codes("\\"), Codes("\\ "), Codes("end\\"), Codes("end\\\\ "),
           Codes("q'\"x"), Codes("100") \o <<37, 95>>, Codes("x=y=z"), Codes("#no"), <<10>>, <<97, 10, 98>>, <<13, 10>>, <<9>>, <<9, 97, 9>>, <<8, 26, 1, 31>>, <<11>>, <<97, 12>>, <<195, 164>>, <<127>>, Codes("\\n"), Codes("0\\0"), Codes("a\\\\b"),
           [j \in 1..RandomElement({70, 80, 300}) |-> 65 + (j - 60 * (j \div 60))]>>
Patterns == <<Codes("*"), Codes("*"), Codes("a"), Codes("a*"), Codes("a.*"), Codes("?"), Codes("a.?"), Codes("?.?"), Codes("*c"), Codes("*.c"), Codes("a?"), Codes("b*c"), Codes("*a*"), Codes("**"), Codes("?*"), Codes("nope"), Codes("a.b?"), Codes("*?"), Codes("?c"), Codes("*.*.c"), <<>>>>
Emit(x) == ops' = Append(ops, x)
KV(n) == [j \in 1..n |-> <<IF RandomElement(1..12) = 1 THEN BadKeys[RandomElement(1..Len(BadKeys))] ELSE Keys[RandomElement(1..Len(Keys))], LET vs == Values(n) IN vs[RandomElement(1..Len(vs))]>>]
\* the same key once
Once(kv) == SelectSeq([j \in 1..Len(kv) |-> IF \E i \in 1..(j - 1) : kv[i][1] = kv[j][1] THEN <<>> ELSE kv[j]], LAMBDA p : p # <<>>)
Name(n) == {IF RandomElement(1..12) = n THEN BadNames[RandomElement(1..Len(BadNames))] ELSE Names[RandomElement(1..Len(Names))]}
Init == held = <<>> /\ edited = FALSE /\ ops = <<[o |-> "new"]>>
Post == \E s \in Name(1), n \in One({1, 1, 2, 3, 6}) : \E kv \in {Once(KV(n))} : Emit([o |-> "post", s |-> s, kv |-> kv]) /\ UNCHANGED <<held, edited>>
Get == \E s \in Name(1), p \in Pick(Patterns) : Emit([o |-> "get", s |-> s, p |-> p]) /\ UNCHANGED <<held, edited>>
Flush == Emit([o |-> "flush"]) /\ UNCHANGED <<held, edited>>
Flush1 == \E s \in Name(1) : Emit([o |-> "flush1", s |-> s]) /\ UNCHANGED <<held, edited>>
Load == \E s \in Name(2) : Emit([o |-> "load", s |-> s]) /\ UNCHANGED <<held, edited>>
Hold == \E s \in Name(1) : Emit([o |-> "hold", s |-> s]) /\ held' = s /\ UNCHANGED edited
HSet == \E k \in Pick(Keys), v \in Pick(Values(1)) : Emit([o |-> "hset", kv |-> <<<<k, v>>>>]) /\ UNCHANGED <<held, edited>>
Tick == \E n \in One({1, 4, 10, 11, 30}) : Emit([o |-> "tick", by |-> n]) /\ UNCHANGED <<held, edited>>
Restart == Emit([o |-> "restart"]) /\ held' = <<>> /\ UNCHANGED edited
Crash == \E k \in One(1..14) : Emit([o |-> "crash", k |-> k]) /\ held' = <<>> /\ UNCHANGED edited
Faulty == \E k \in One(1..9), e \in One({28, 5, 13}), w \in One({"flush", "flush", "10"}) : Emit([o |-> "fail", k |-> k, errno |-> e, what |-> w]) /\ UNCHANGED <<held, edited>>
Edit == \E s \in Pick(Names), st \in One({0, 1}), n \in One({1, 2, 3}) :
  \E kv \in {SelectSeq(Once(KV(n)), LAMBDA p : Len(p[1]) > 0 /\ p[1] \notin {BadKeys[j] : j \in 1..Len(BadKeys)} /\ Len(p[2]) > 0 /\ p[2][1] \notin {32, 9, 11, 12} /\ p[2][Len(p[2])] \notin {32, 9, 11, 12})} :
    Emit([o |-> "edit", s |-> s, st |-> st, kv |-> kv]) /\ UNCHANGED <<held, edited>>
Big == \E k \in Pick(SubSeq(Keys, 2, 5)) : Emit([o |-> "post", s |-> Codes("big"), kv |-> <<<<k, <<-1, 400000>>>>>>]) /\ UNCHANGED <<held, edited>>
Burst == \E a \in Pick(Names), f \in {<<>>, Codes("set")}, n \in One({5, 20, 40}) :
  Emit([o |-> "burst", f |-> f, ss |-> <<<<Codes("set"), Codes("k1"), n>>, <<Codes("set"), Codes("k2"), n>>, <<a, Codes("k3"), n>>>>]) /\ UNCHANGED <<held, edited>>
Faults == \E k \in One(1..20) :
  IF k <= 7 THEN Post ELSE IF k <= 10 THEN Get ELSE IF k = 11 THEN Flush ELSE IF k <= 13 THEN Crash ELSE IF k <= 15 THEN Faulty
  ELSE IF k = 16 THEN Tick ELSE IF k = 17 THEN Restart ELSE IF k = 18 THEN Hold ELSE IF k = 19 THEN HSet ELSE Burst
Uses == \E k \in One(1..24) :
  IF k <= 6 THEN Post ELSE IF k <= 11 THEN Get ELSE IF k <= 13 THEN Flush ELSE IF k = 14 THEN Flush1 ELSE IF k = 15 THEN Load ELSE IF k <= 17 THEN Edit
  ELSE IF k = 18 THEN Hold ELSE IF k <= 20 THEN HSet ELSE IF k = 21 THEN Restart ELSE IF k <= 23 THEN Tick ELSE Big
Done == PrintT("VPGEN " \o ToJson(ops)) /\ Emit([o |-> "end"]) /\ UNCHANGED <<held, edited>>
Ending(k) == IF k = 4 THEN Flush ELSE IF k = 3 THEN Get ELSE IF k = 2 THEN Restart ELSE Get
Next == IF Len(ops) < DEPTH - 4 THEN (IF PROFILE = "faults" THEN Faults ELSE Uses)
        ELSE IF Len(ops) < DEPTH THEN Ending(DEPTH - Len(ops)) ELSE Len(ops) = DEPTH /\ Done
Spec == Init /\ [][Next]_vars
=============================================================================
