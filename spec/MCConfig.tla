------------------------------- MODULE MCConfig ------------------------------
(* What texts mean, for all short texts and many numbers: the sum of the parts; *)
(* what is written reads back; files and command lines mean the same; the last  *)
(* one given wins; an accepted policy gets coarser.                             *)
EXTENDS Config, TLC
CONSTANTS LENGTH, NMAX, WHOLE
VARIABLES s, n, a
vars == <<s, n, a>>
Chars == {T("1")[1], T("0")[1], T("s")[1], T("m")[1], T(":")[1], T(",")[1]}
Texts1 == UNION {[1..k -> Chars] : k \in 0..LENGTH}
Words == {T("--num"), T("--flag"), T("--str"), T("--x"), T("7"), T("a"), T("--")}
Init == \/ s \in Texts1 /\ n = 0 /\ a = <<>>
        \/ s = <<>> /\ n \in 0..NMAX /\ a = <<>>
        \/ s = <<>> /\ n = 0 /\ a \in UNION {[1..k -> Words] : k \in 0..4}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* any cut of a time into two times
SumOfParts == \A k \in 1..(Len(s) - 1) : LET x == SubSeq(s, 1, k) y == SubSeq(s, k + 1, Len(s)) IN
  IsTime(x) /\ IsTime(y) => IsTime(s) /\ TimeOf(s) = TimeOf(x) + TimeOf(y)
Written(k) == IF WHOLE THEN WriteTime(k) ELSE WriteFrom(k - 1, 1)
ReadsBack == LET w == Written(n) IN IsTime(w) /\ TimeOf(w) = n
Coarser == LET p == Policy(s) IN PolicyOK(p) => \A i, j \in 1..Len(p) : i < j /\ p[j].lam = 0 => p[i].iv < p[j].iv /\ p[i].lam = 0
Long == LET p == Policy(s) IN PolicyOK(p) => \A j \in 1..Len(p) : p[j].n >= 1 /\ p[j].iv >= 1
\* each prefix of the texts leads to the same values as all of it if it ends there
Taken == LET r == Options(NewOptions, a, 0) IN r.at <= Len(a) /\ Options(NewOptions, SubSeq(a, 1, r.at), 0).o = r.o
\* what follows a complete command line decides, whatever came before
LastWins == LET r == Options(NewOptions, a, 0)
                more == Options(NewOptions, a \o <<T("--str"), T("z"), T("--num"), T("9")>>, 0)
            IN r.at = Len(a) /\ (a = <<>> \/ a[Len(a)] # T("--")) => more.o = [r.o EXCEPT !.str = T("z"), !.num = 9]
AsFile == LET r == Options(NewOptions, a, 0)
              words == {T("7"), T("a")}
              plain == \A k \in 1..Len(a) : a[k] = T("--str") => k < Len(a) /\ a[k + 1] \in words
              text == FoldSeq(LAMBDA w, t : IF w \in words THEN t \o <<32>> \o w ELSE (IF t = <<>> THEN t ELSE t \o <<10>>) \o w, <<>>, a)
          IN plain /\ r.at = Len(a) /\ T("--") \notin {a[k] : k \in 1..Len(a)} /\ a # <<>> => File(NewOptions, text) = [ok |-> TRUE, line |-> 0, o |-> r.o]
=============================================================================
