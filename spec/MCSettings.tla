----------------------------- MODULE MCSettings -----------------------------
(* How a section is saved, and flushed while others use it: files are made   *)
(* step by step, each step may fail or be the last, and one who has opened   *)
(* the section before a flush may set something after it.                    *)
EXTENDS Integers, FiniteSets
CONSTANTS N, ATOMIC, CHECK, KEEP, RETRY
\* versions 0..N of the contents; gone: no file; torn: a part of it
Gone == -1
Torn == -2
VARIABLES file, tmp, pc, bad, obj, next, val, dirty, user, last, saved, up
vars == <<file, tmp, pc, bad, obj, next, val, dirty, user, last, saved, up>>
\* obj: what opening the section gives (0: it is read); val, dirty: of each object; user: the object somebody is about
\* to use; last: what was set last; saved: the least version that has to be in the file
Objects == 1..(N + 3)
Init == file = 0 /\ tmp = Gone /\ pc = "idle" /\ bad = FALSE /\ obj = 0 /\ next = 1 /\ val = [o \in Objects |-> 0] /\ dirty = [o \in Objects |-> FALSE]
        /\ user = 0 /\ last = 0 /\ saved = 0 /\ up = TRUE
Opened(o) == IF obj # 0 THEN o = obj /\ UNCHANGED <<obj, next, val>>
             ELSE o = next /\ next <= N + 3 /\ file >= 0 /\ obj' = next /\ next' = next + 1 /\ val' = [val EXCEPT ![next] = file]
Open == up /\ user = 0 /\ pc = "idle" /\ \E o \in Objects : Opened(o) /\ user' = o /\ UNCHANGED <<file, tmp, pc, bad, dirty, last, saved, up>>
Set == up /\ user # 0 /\ last < N /\ pc = "idle"
  /\ last' = last + 1 /\ val' = [val EXCEPT ![user] = last + 1] /\ dirty' = [dirty EXCEPT ![user] = TRUE] /\ user' = 0
  /\ UNCHANGED <<file, tmp, pc, bad, obj, next, saved, up>>
\* ---- saving what opening gives, then forgetting it
Begin == up /\ pc = "idle" /\ obj # 0 /\ pc' = (IF dirty[obj] THEN "create" ELSE "done") /\ bad' = FALSE /\ UNCHANGED <<file, tmp, obj, next, val, dirty, user, last, saved, up>>
Same == UNCHANGED <<obj, next, val, dirty, user, last, saved, up>>
Create == pc = "create" /\ tmp' = Torn /\ pc' = "write" /\ UNCHANGED <<file, bad>> /\ Same
Write == pc = "write" /\ \E ok \in BOOLEAN :
  /\ tmp' = (IF ok THEN val[obj] ELSE Torn) /\ bad' = ~ok
  /\ pc' = (IF ~ok /\ CHECK THEN "failed" ELSE IF ATOMIC THEN "rename" ELSE "remove") /\ UNCHANGED file /\ Same
Remove == pc = "remove" /\ file' = Gone /\ pc' = "rename" /\ UNCHANGED <<tmp, bad>> /\ Same
Rename == pc = "rename" /\ \E ok \in BOOLEAN :
  IF ok THEN file' = tmp /\ tmp' = Gone /\ pc' = "done" /\ saved' = val[obj] /\ dirty' = [dirty EXCEPT ![obj] = FALSE] /\ UNCHANGED <<bad, obj, next, val, user, last, up>>
  ELSE pc' = "failed" /\ UNCHANGED <<file, tmp, bad>> /\ Same
Failed == pc = "failed" /\ pc' = "idle" /\ dirty' = [dirty EXCEPT ![obj] = @ /\ RETRY] /\ UNCHANGED <<file, tmp, bad, obj, next, val, user, last, saved, up>>
\* a section kept is read again before it is used next, unless somebody has set something since; then nothing is lost
\* (here: whoever holds it is known to do so)
Forget == pc = "done" /\ pc' = "idle" /\ obj' = (IF KEEP /\ user = obj THEN obj ELSE 0) /\ UNCHANGED <<file, tmp, bad, next, val, dirty, user, last, saved, up>>
Die == up /\ up' = FALSE /\ pc' = "idle" /\ UNCHANGED <<file, tmp, bad, obj, next, val, dirty, user, last, saved>>
Next == Open \/ Set \/ Begin \/ Create \/ Write \/ Remove \/ Rename \/ Failed \/ Forget \/ Die
Spec == Init /\ [][Next]_vars
Whole == file >= 0                                     \* there is always a complete file
OldOrNew == ~up => file >= saved /\ file <= last
\* what is set last is read; or known to whoever saves
ReadBack == up => (IF obj # 0 THEN val[obj] ELSE file) = last
Kept == up /\ pc = "idle" /\ obj # 0 /\ val[obj] # file => dirty[obj]
=============================================================================
