---------------------------- MODULE LineEndsGen -----------------------------
(* All texts up to a length over an alphabet with CR and LF, and their conversion. *)
EXTENDS LineEnds, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Law1 == OnlyPairs(s)
Law2 == SameAnalysis(s)
Emit == PrintT(ToJson([s |-> s, text |-> Strip(s), dos |-> HasCR(s)]))
=============================================================================
