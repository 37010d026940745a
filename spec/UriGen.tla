------------------------------- MODULE UriGen -------------------------------
(* All URIs made of a beginning, a few pieces, and an end; with the document each names. *)
EXTENDS Uri, TLC, Json
CONSTANTS Heads, Pieces, Tails, MaxPieces
VARIABLES u, n, ended
vars == <<u, n, ended>>
Init == u \in Heads /\ n = 0 /\ ended = FALSE
Next == \/ ~ended /\ n < MaxPieces /\ \E p \in Pieces : u' = u \o p /\ n' = n + 1 /\ ended' = FALSE
        \/ ~ended /\ \E t \in Tails : u' = u \o t /\ n' = MaxPieces /\ ended' = TRUE
Spec == Init /\ [][Next]_vars
Law == WrittenIsRead(u)
\* more ways to write the same: another slash at the end of a path, a fragment, an upper-case scheme
SameDoc == Doc(u) # <<>> => Doc([i \in 1..Len(u) |-> IF i <= 4 THEN (IF u[i] >= 97 THEN u[i] - 32 ELSE u[i]) ELSE u[i]]) = Doc(u)
Fragment == Doc(u \o <<35, 97>>) = Doc(u) \/ Doc(u) = <<>>
View == u
Emit == PrintT(ToJson([u |-> u, doc |-> Doc(u), scope |-> InScope(u)]))
\* "file:", "file:/", "file://", "file:///", "file://localhost", "file://a", "FiLe:///", "a:///", "/"
HeadsDef == {<<102, 105, 108, 101, 58>>, <<102, 105, 108, 101, 58, 47>>, <<102, 105, 108, 101, 58, 47, 47>>, <<102, 105, 108, 101, 58, 47, 47, 47>>,
             <<102, 105, 108, 101, 58, 47, 47>> \o LocalhostDef, <<102, 105, 108, 101, 58, 47, 47, 97>>, <<70, 105, 76, 101, 58, 47, 47, 47>>,
             <<97, 98, 58, 47, 47, 47>>, <<47>>, <<102, 105, 108, 101>>}
OneHead == {<<102, 105, 108, 101, 58, 47, 47, 47>>}
\* / \ a A . %2e %2E %61 %2F %c3%A9 e-acute % + %Ff
PiecesDef == {<<47>>, <<92>>, <<97>>, <<65>>, <<46>>, <<37, 50, 101>>, <<37, 50, 69>>, <<37, 54, 49>>, <<37, 50, 70>>, <<37, 99, 51, 37, 65, 57>>, <<233>>,
              <<37>>, <<43>>, <<37, 70, 102>>}
FewPieces == {<<47>>, <<97>>, <<46>>, <<37, 50, 101>>, <<37, 54, 49>>, <<37>>}
\* ?a #a
TailsDef == {<<63, 97>>, <<35, 47, 97>>}
=============================================================================
