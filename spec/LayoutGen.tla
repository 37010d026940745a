----------------------------- MODULE LayoutGen ------------------------------
(* All layouts of given small programs (IOEnv.CASES: lists of words), with gaps from Gaps. *)
EXTENDS Layout, Json, IOUtils
CONSTANTS Gaps
Bases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES b, n, s      \* the program, how many of its words stand in the text
vars == <<b, n, s>>
Init == b \in 1..Len(Bases) /\ n = 0 /\ s \in Gaps
Next == n < Len(Bases[b]) /\ n' = n + 1 /\ b' = b /\ \E g \in Gaps : s' = s \o Bases[b][n + 1] \o g
Spec == Init /\ [][Next]_vars
Emit == (n = Len(Bases[b]) /\ Words_(s) = Bases[b]) => PrintT(ToJson([b |-> b, s |-> s]))
\* nothing, blank, line feed, comment, blank and comment
SomeGaps == {<<>>, <<32>>, <<10>>, <<47, 47, 99, 10>>, <<32, 47, 47, 123, 10, 9>>}
=============================================================================
