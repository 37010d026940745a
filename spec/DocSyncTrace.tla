---------------------------- MODULE DocSyncTrace ----------------------------
(* Recorded histories of the real server must be behaviours of DocSync.
   A line is {ev, d, text, edits, held: {d: [] or [text]}, open: [docs]}. *)
EXTENDS DocSync, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES t, l
tvars == <<opened, held, t, l>>
TInit == DInit /\ t \in 1..Len(Traces) /\ l = 1
Line == Traces[t][l]
Range(q) == {q[i] : i \in 1..Len(q)}
TNext ==
  /\ l <= Len(Traces[t]) /\ l' = l + 1 /\ t' = t
  /\ \/ Line.ev = "open" /\ DOpen(Line.d, Line.text)
     \/ Line.ev = "change" /\ DChange(Line.d, Line.edits)
     \/ Line.ev = "close" /\ \E keep \in BOOLEAN : DClose(Line.d, keep)
     \/ Line.ev = "foreign" /\ DForeign
  /\ Range(Line.open) = opened'
  /\ \A d \in Docs : Line.held[d] = held'[d]
TSpec == TInit /\ [][TNext]_tvars
Accept == l = Len(Traces[t]) + 1 => PrintT(ToJson([accepted |-> t]))
=============================================================================
