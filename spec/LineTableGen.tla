---------------------------- MODULE LineTableGen ----------------------------
(* All texts up to a length, with every conversion of every boundary and every range. *)
EXTENDS LineTable, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s
LawInvertible == Invertible(s)
LawPieces == PiecesCover(s)
RangeSeq == [i \in 1..(Len(s) + 1) |-> [j \in 1..(Len(s) + 2 - i) |-> PieceOffsets(s, i - 1, i + j - 2)]]
Emit == PrintT(ToJson([s |-> s, points |-> Points(s), ranges |-> RangeSeq]))
=============================================================================
