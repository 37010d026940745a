---------------------------- MODULE GrammarGen ------------------------------
(* The programs of the grammar, each with the walk over its tree. *)
EXTENDS Grammar, Json
Event(x) == IF x.s = "l" THEN <<"l", x.k, x.w>> ELSE <<x.s, x.k>>
Emit == Complete => PrintT(ToJson([tree |-> [i \in 1..Len(out) |-> Event(out[i])]]))
\* all of this language is accepted by the machine that reads it (HEX: numbers that begin with 0x)
Reads == INSTANCE Reader
Kinds(o) == LET l == SelectSeq(o, LAMBDA x : x.s = "l")
            IN [i \in 1..Len(l) |-> IF l[i].k = "DIEM_ADDRESS" \/ l[i].w = "0xFFu128" THEN "HEX" ELSE l[i].k]
Read == Complete => Reads!Program(Kinds(out))
AllOps == {"=", "<", ">", "|", "^", "&", "+", "-", "*", "/", "%"}
OnePerLevel == {"=", "<", "|", "^", "&", "+", "*"}
FewOps == {"=", "+", "*"}
=============================================================================
