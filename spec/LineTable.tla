------------------------------ MODULE LineTable -----------------------------
(***************************************************************************)
(* Lines and columns of a text.  Mirrors crates/ide_db/src/line_index.rs   *)
(* and the conversions in to_proto.rs/from_proto.rs.                        *)
(* A boundary i of text s is 0..Len(s): the place after its first i         *)
(* characters.                                                             *)
(***************************************************************************)
EXTENDS Utf
Before(s, i) == SubSeq(s, 1, i)
Offset(s, i) == ByteLen(Before(s, i))
LineOf(s, i) == Cardinality({j \in 1..i : s[j] = LF})
LineStart(s, i) == LET b == {j \in 1..i : s[j] = LF} IN IF b = {} THEN 0 ELSE CHOOSE j \in b : \A m \in b : m <= j
Col8(s, i) == ByteLen(SubSeq(s, LineStart(s, i) + 1, i))
Col16(s, i) == UnitLen(SubSeq(s, LineStart(s, i) + 1, i))

\* the pieces of the range from boundary i to j, cut after each line feed inside
Cuts(s, i, j) == {m \in (i + 1)..(j - 1) : s[m] = LF}
RECURSIVE Pieces(_, _, _)
Pieces(s, i, j) ==
  IF i = j THEN <<>>
  ELSE LET c == Cuts(s, i, j)
       IN IF c = {} THEN << <<i, j>> >>
          ELSE LET m == CHOOSE m \in c : \A x \in c : m <= x IN << <<i, m>> >> \o Pieces(s, m, j)

\* the boundary with a line and column, if there is one
AtPos(s, line, col, units) ==
  {i \in 0..Len(s) : LineOf(s, i) = line /\ (IF units THEN Col16(s, i) ELSE Col8(s, i)) = col}

(* laws (P17) *)
Invertible(s) == \A i \in 0..Len(s) :
  /\ AtPos(s, LineOf(s, i), Col8(s, i), FALSE) = {i}
  /\ AtPos(s, LineOf(s, i), Col16(s, i), TRUE) = {i}
PiecesCover(s) == \A i \in 0..Len(s) : \A j \in i..Len(s) :
  LET p == Pieces(s, i, j) IN
  /\ i < j => p[1][1] = i /\ p[Len(p)][2] = j
  /\ \A m \in 1..Len(p) : p[m][1] < p[m][2] /\ (m < Len(p) => p[m][2] = p[m + 1][1])
  /\ \A m \in 1..Len(p) : \A x \in (p[m][1] + 1)..(p[m][2] - 1) : s[x] # LF

Points(s) == [i \in 1..(Len(s) + 1) |-> [off |-> Offset(s, i - 1), line |-> LineOf(s, i - 1),
                                         c8 |-> Col8(s, i - 1), c16 |-> Col16(s, i - 1)]]
PieceOffsets(s, i, j) == LET p == Pieces(s, i, j)
                         IN [m \in 1..Len(p) |-> <<Offset(s, p[m][1]), Offset(s, p[m][2])>>]
=============================================================================
