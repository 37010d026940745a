---------------------------- MODULE LineRunsCases ---------------------------
(* Recorded conversions in texts with very long lines, or very many, are those of LineRuns. *)
EXTENDS LineRuns, Cases
Place(p) == [r |-> p[1], m |-> p[2]]
Expected(c) == [i \in 1..Len(c.at) |-> Point(c.runs, Place(c.at[i]))]
Ok(c) == /\ c.points = Expected(c)
         /\ \A i \in 1..(Len(c.at) - 1) : c.pieces[i] = Pieces(c.runs, Place(c.at[i]), Place(c.at[i + 1]))
Judge == Ok(Cases[k]) \/ PrintT(ToJson([bad |-> k, expected |-> Expected(Cases[k])]))
=============================================================================
