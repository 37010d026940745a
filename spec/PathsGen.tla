------------------------------ MODULE PathsGen ------------------------------
(* All short absolute path texts over an alphabet, grown one character at a time, with what every
   path operation gives on them.  The laws of the property are invariants. *)
EXTENDS PathOps, TLC, Json
CONSTANTS Alphabet, MaxLen, Rels, Bases
VARIABLE s
Init == s = <<Slash>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s

\* laws
Idempotent == Normalize(Text(Normalize(s))) = Normalize(s)
StaysInside == \A i \in 1..Len(Normalize(s)) : Normalize(s)[i] \notin {<<>>, <<Dot>>, Up}
\* a path and its spelling with a redundant "./", "x/.." or separator are the same location
Spellings == /\ Normalize(<<Slash, Dot>> \o s) = Normalize(s)
             /\ Normalize(s \o <<Slash>>) = Normalize(s)
             /\ Normalize(<<Slash, 97, Slash, Dot, Dot>> \o s) = Normalize(s)
ParentLaw == Comps(s) # <<>> => Under(Comps(s), Parent(Comps(s)))

Emit == PrintT(ToJson([s |-> s, obs |-> Observations(s, Rels, Bases)]))

\* characters: / . a b
RelsDef == << <<97>>, <<46, 46>>, <<46, 46, 47, 97>>, <<46, 46, 47, 46, 46, 47, 98>>, <<46, 47, 97>>,
              <<47, 98>>, <<97, 47, 46, 46, 47, 98>>, <<>>, <<46, 46, 47, 46, 46, 47, 46, 46, 47, 97>> >>
BasesDef == << <<47>>, <<47, 97>>, <<47, 97, 47>>, <<47, 97, 47, 98>>, <<47, 46, 97>>, <<47, 97, 47, 46, 46>> >>
=============================================================================
