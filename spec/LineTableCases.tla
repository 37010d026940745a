--------------------------- MODULE LineTableCases ---------------------------
(* Recorded conversions of random long texts are those of LineTable. *)
EXTENDS LineTable, Cases
Ok(c) == /\ c.points = Points(c.s)
         /\ \A r \in 1..Len(c.ranges) : c.ranges[r].got = PieceOffsets(c.s, c.ranges[r].i, c.ranges[r].j)
Judge == Ok(Cases[k]) \/ PrintT(ToJson([bad |-> k, expected |-> Points(Cases[k].s)]))
=============================================================================
