--------------------------- MODULE LineEndsCases ----------------------------
EXTENDS LineEnds, Cases
Ok(c) == c.text = Strip(c.s) /\ c.dos = HasCR(c.s)
Judge == Ok(Cases[k]) \/ PrintT(ToJson([bad |-> k, expected |-> Strip(Cases[k].s)]))
=============================================================================
