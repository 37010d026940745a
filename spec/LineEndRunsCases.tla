-------------------------- MODULE LineEndRunsCases --------------------------
(* Recorded conversions of long texts are those of LineEndRuns. *)
EXTENDS LineEndRuns, Cases
Ok(c) == c.text = StripRuns(c.runs) /\ c.dos = HasCRRuns(c.runs)
Judge == Ok(Cases[k]) \/ PrintT(ToJson([bad |-> k, expected |-> Len(StripRuns(Cases[k].runs))]))
=============================================================================
