------------------------------- MODULE MCIngest -----------------------------
(* However the bytes of a connection are cut into pieces, they mean the same: *)
(* all streams over a small alphabet, cut in every way.                       *)
EXTENDS StatServer
CONSTANTS ALPHABET, LENGTH, KEEP
VARIABLES stream, pos, s, out
vars == <<stream, pos, s, out>>
Streams == UNION {[1..n -> ALPHABET] : n \in 1..LENGTH}
Init == stream \in Streams /\ pos = 0 /\ s = NewSender /\ out = NoOutput
Deliver == \E k \in (pos + 1)..Len(stream) :
  LET r == Bytes(s, SubSeq(stream, pos + 1, k), {})
  IN /\ pos' = k /\ s' = (IF KEEP THEN r[1] ELSE [r[1] EXCEPT !.buf = <<>>])
     /\ out' = [recs |-> out.recs \o r[2].recs, metas |-> out.metas \o r[2].metas]
     /\ UNCHANGED stream
Spec == Init /\ [][Deliver]_vars
Meaning == Take(NewSender, Cut(SubSeq(stream, 1, pos)).lines, {}, NoOutput)
\* what has happened is what the complete lines so far mean
SameHoweverCut == out = Meaning[2] /\ s.attrs = Meaning[1].attrs /\ s.buf = Cut(SubSeq(stream, 1, pos)).rest
\* a sample has a name without '^' and comes from a line that begins as counter names do
NamesExpanded == \A j \in 1..Len(out.recs) : \A i \in 1..Len(out.recs[j].n) : out.recs[j].n[i] # Caret \/ Expand(out.recs[j].n) = <<out.recs[j].n>>
=============================================================================
