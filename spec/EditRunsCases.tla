---------------------------- MODULE EditRunsCases ---------------------------
(* Recorded changes of long texts are those of EditRuns. A case is {runs, utf8, edits: [{p, q, new, range}], after: texts after each}. *)
EXTENDS EditRuns, Cases
Place(p) == [r |-> p[1], m |-> p[2]]
Changes(c) == [i \in 1..Len(c.edits) |-> [p |-> Place(c.edits[i].p), q |-> Place(c.edits[i].q), new |-> c.edits[i].new]]
Ok(c) == LET ts == Texts(c.runs, Changes(c)) IN
         /\ \A i \in 1..Len(c.edits) : c.edits[i].range = PlaceRange(ts[i], Changes(c)[i].p, Changes(c)[i].q, c.utf8)
         /\ c.after = IF c.each THEN Tail(ts) ELSE <<ts[Len(ts)]>>
Judge == Ok(Cases[k]) \/ PrintT(ToJson([bad |-> k, expected |-> Texts(Cases[k].runs, Changes(Cases[k]))]))
=============================================================================
