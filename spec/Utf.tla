-------------------------------- MODULE Utf ---------------------------------
(* Texts are sequences of code points; how long they are in bytes and in UTF-16 units. *)
EXTENDS Naturals, Sequences, FiniteSets
LF == 10
CR == 13
Bytes(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Units(c) == IF c < 65536 THEN 1 ELSE 2
RECURSIVE ByteLen(_)
ByteLen(s) == IF s = <<>> THEN 0 ELSE Bytes(s[1]) + ByteLen(Tail(s))
RECURSIVE UnitLen(_)
UnitLen(s) == IF s = <<>> THEN 0 ELSE Units(s[1]) + UnitLen(Tail(s))
=============================================================================
