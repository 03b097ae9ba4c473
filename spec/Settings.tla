------------------------------ MODULE Settings ------------------------------
(* Settings: sections of keys and values, used by several at once, and kept  *)
(* in one file for each section. Keys, values, names and patterns are        *)
(* sequences of character codes.                                             *)
(* mem[s]: what is set in a section; loaded[s]: whether that is known, or    *)
(* has to be read from the file when the section is used next; dirty[s]:     *)
(* whether something set has not been saved ("maybe" where saving cannot be  *)
(* told from not saving); due[s]: when it has to be saved at the latest;     *)
(* disk[s]: what a process starting now would find.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Dot == 46
Star == 42
Quest == 63
RECURSIVE MatchAt(_, _, _, _)
\* a star stands for anything, a question mark for anything without dots
MatchAt(s, i, p, j) ==
  IF j > Len(p) THEN i > Len(s)
  ELSE IF p[j] = Star THEN \E k \in i..(Len(s) + 1) : MatchAt(s, k, p, j + 1)
  ELSE IF p[j] = Quest THEN \E k \in i..(Len(s) + 1) : (\A x \in i..(k - 1) : s[x] # Dot) /\ MatchAt(s, k, p, j + 1)
  ELSE i <= Len(s) /\ s[i] = p[j] /\ MatchAt(s, i + 1, p, j + 1)
Match(s, p) == MatchAt(s, 1, p, 1)

\* " \r\n\t\b\v\f\\/:;*?\"'%()[]{}~$^#=+-"
NotInKeys == {32, 13, 10, 9, 8, 11, 12, 92, 47, 58, 59, 42, 63, 34, 39, 37, 40, 41, 91, 93, 123, 125, 126, 36, 94, 35, 61, 43, 45}
ValidKey(k) == \A j \in 1..Len(k) : k[j] \notin NotInKeys
ValidName(n) == \A j \in 1..Len(n) : n[j] \in (48..57) \cup (65..90) \cup (97..122) \cup {95, 45, 46}
Hidden(n) == Len(n) > 0 /\ n[1] = Dot
SaveWithin == 10

Nothing == <<>>
NewSettings == [now |-> 0, mem |-> Nothing, loaded |-> Nothing, dirty |-> Nothing, due |-> Nothing, disk |-> Nothing, held |-> <<0>>]
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Less(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Overlay(a, b) == [k \in DOMAIN a \cup DOMAIN b |-> IF k \in DOMAIN b THEN b[k] ELSE a[k]]
IsLoaded(S, s) == At(S.loaded, s, FALSE)
Dirty(S, s) == At(S.dirty, s, "no")
Mem(S, s) == At(S.mem, s, Nothing)
OnDisk(S, s) == s \in DOMAIN S.disk
\* the section as it is used from now on; reading it must have been possible
Use(S, s) ==
  IF IsLoaded(S, s) THEN S
  ELSE [S EXCEPT !.mem = Put(@, s, At(S.disk, s, Nothing)), !.loaded = Put(@, s, TRUE), !.dirty = Put(@, s, "no")]
Create(S, s) == IF IsLoaded(S, s) \/ OnDisk(S, s) THEN S ELSE [S EXCEPT !.disk = Put(@, s, Nothing)]
Applied(m, k, v) == IF ~ValidKey(k) THEN m ELSE IF v = <<>> THEN Less(m, k) ELSE Put(m, k, v)
Set(S, s, k, v) ==
  IF ~ValidKey(k) THEN S
  ELSE LET m == Applied(Mem(S, s), k, v)
       IN [S EXCEPT !.mem = Put(@, s, m), !.loaded = Put(@, s, TRUE),
                    !.dirty = Put(@, s, IF m = At(S.disk, s, Nothing) THEN "maybe" ELSE "yes"),
                    !.due = Put(@, s, IF Dirty(S, s) = "no" \/ At(@, s, 0) = 0 THEN S.now + SaveWithin ELSE @[s])]
SetAll(S, s, kv) == FoldLeft(LAMBDA T, p : Set(T, s, p[1], p[2]), S, kv)
\* what the file of a section may hold after it was, or may have been, saved
MustBe(S, s) == IF Dirty(S, s) = "yes" THEN {S.mem[s]} ELSE IF Dirty(S, s) = "maybe" THEN {S.mem[s], At(S.disk, s, Nothing)} ELSE {At(S.disk, s, Nothing)}
MayBe(S, s) == IF Dirty(S, s) = "no" THEN {At(S.disk, s, Nothing)} ELSE {S.mem[s], At(S.disk, s, Nothing)}
Sections(S) == DOMAIN S.disk \cup DOMAIN S.mem
Found(S, s, p) == {<<k, Mem(S, s)[k]>> : k \in {x \in DOMAIN Mem(S, s) : Match(x, p)}}
\* a new process: everything is read again
Restarted(S) ==
  [S EXCEPT !.mem = S.disk, !.loaded = [s \in DOMAIN S.disk |-> ~Hidden(s)], !.dirty = [s \in DOMAIN S.disk |-> "no"],
            !.due = [s \in DOMAIN S.disk |-> 0], !.held = <<0>>]
=============================================================================
