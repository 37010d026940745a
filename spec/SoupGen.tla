------------------------------ MODULE SoupGen -------------------------------
(* Every sequence of tokens up to a length, after every kind of beginning: reading it ends. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Beginnings, Vocabulary, MaxLen      \* how many there are of each
VARIABLES b, ts
Init == b \in 1..Beginnings /\ ts = <<>>
Next == Len(ts) < MaxLen /\ b' = b /\ \E t \in 1..Vocabulary : ts' = Append(ts, t)
Spec == Init /\ [][Next]_<<b, ts>>
Emit == PrintT(ToJson([b |-> b, ts |-> ts]))
=============================================================================
