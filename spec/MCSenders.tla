------------------------------ MODULE MCSenders -----------------------------
(* Several senders, a blacklist that changes, connections that end: who is    *)
(* turned away, and who is known as what.                                     *)
EXTENDS StatServer, Text
CONSTANTS CONNS, STEPS, LATEST, OWNLIST
VARIABLES C, list, disk, log, steps
vars == <<C, list, disk, log, steps>>
Said == Texts({"#hostname web1", "#hostname Web2", "#os x", "#os y", "a 1"})
Lists == {{}, Texts({"web1"}), Texts({"web2"}), Texts({"web1", "web2"})}
\* log: what each sender said, in order, and what became of it
Init == C = [i \in CONNS |-> NewSender] /\ list = {} /\ disk = {} /\ log = [i \in CONNS |-> <<>>] /\ steps = 0
Say(i) == \E l \in Said :
  LET r == Take(C[i], <<l>>, IF OWNLIST THEN list ELSE {}, NoOutput)
  IN /\ C' = [C EXCEPT ![i] = IF LATEST THEN r[1] ELSE [r[1] EXCEPT !.attrs = C[i].attrs @@ @]]
     /\ log' = [log EXCEPT ![i] = Append(@, [l |-> l, list |-> list, taken |-> ~C[i].dead /\ ~r[1].dead])]
     /\ UNCHANGED <<list, disk>>
Edit == \E d \in Lists : disk' = d /\ UNCHANGED <<C, list, log>>
Reread == list' = disk /\ UNCHANGED <<C, disk, log>>
Next == steps < STEPS /\ steps' = steps + 1 /\ (Edit \/ Reread \/ \E i \in CONNS : Say(i))
Spec == Init /\ [][Next]_vars
\* the name a sender goes by before its k-th line (only lines that were taken count)
Claims(i, k) == SelectSeq(SubSeq(log[i], 1, k - 1), LAMBDA x : x.taken /\ IsMeta(x.l) /\ MetaKey(x.l) = HostKey)
Blocked(i, k) == LET c == Claims(i, k) IN Len(c) > 0 /\ Lower(MetaValue(c[Len(c)].l)) \in log[i][k].list
\* once blocked, always: nothing more is taken; and otherwise everything is
TurnedAway == \A i \in CONNS : \A k \in 1..Len(log[i]) : log[i][k].taken <=> ~\E j \in 1..k : Blocked(i, j)
\* what is known about a sender is what it said last
Known == \A i \in CONNS : LET m == SelectSeq(log[i], LAMBDA x : x.taken /\ IsMeta(x.l))
                           keys == {MetaKey(m[j].l) : j \in 1..Len(m)}
                       IN DOMAIN C[i].attrs = keys /\ \A k \in keys : C[i].attrs[k] = MetaValue(m[Max({j \in 1..Len(m) : MetaKey(m[j].l) = k})].l)
View == <<C, list, disk, log>>
=============================================================================
