-------------------------------- MODULE Text --------------------------------
(* Character codes of strings, so that texts can be written down readably. *)
EXTENDS Integers, Sequences
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Ascii, k, k) : k \in 1..Len(Ascii)} |-> 31 + CHOOSE k \in 1..Len(Ascii) : SubSeq(Ascii, k, k) = c]
Codes(s) == [j \in 1..Len(s) |-> CodeOf[SubSeq(s, j, j)]]
Texts(ss) == {Codes(s) : s \in ss}
=============================================================================
