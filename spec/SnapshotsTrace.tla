--------------------------- MODULE SnapshotsTrace ---------------------------
(* Recordings of threads that use snapshots must be behaviours of Snapshots.                            *)
(* An answer is recorded with the moments it would be right at (fits), or as cancelled.                 *)
EXTENDS Snapshots, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES t, l
tvars == <<now, snap, writer, t, l>>
TInit == SInit /\ t \in 1..Len(Traces) /\ l = 1
Line == Traces[t][l]
Fits == {Line.fits[i] : i \in 1..Len(Line.fits)}
TNext ==
  /\ l <= Len(Traces[t]) /\ l' = l + 1 /\ t' = t
  /\ \/ Line.ev = "take" /\ Take(Line.s)
     \/ Line.ev = "ask" /\ Ask(Line.s)
     \/ Line.ev = "answer" /\ \E a \in Answers(Line.s) : Answer(Line.s, a) /\ (IF Line.cancelled THEN a = <<>> ELSE a # <<>> /\ a[1] \in Fits)
     \/ Line.ev = "drop" /\ Drop(Line.s)
     \/ Line.ev = "begin" /\ Begin
     \/ Line.ev = "finish" /\ Finish
TSpec == TInit /\ [][TNext]_tvars
Accept == l = Len(Traces[t]) + 1 => PrintT(ToJson([accepted |-> t]))
=============================================================================
