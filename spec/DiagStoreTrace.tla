--------------------------- MODULE DiagStoreTrace ---------------------------
(* Recorded histories of the real store must be behaviours of DiagStore. *)
EXTENDS DiagStore, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES t, l
tvars == <<native, set, check, must, may, reported, t, l>>
TInit == Init /\ t \in 1..Len(Traces) /\ l = 1
Line == Traces[t][l]
Ids(s) == [i \in 1..Len(s) |-> s[i].id]
Range(s) == {s[i] : i \in 1..Len(s)}
ShownIs(o) == \A f \in Files : o.shown[f + 1] = Ids(ShownNext(f))
TNext ==
  /\ l <= Len(Traces[t]) /\ l' = l + 1 /\ t' = t
  /\ \/ Line.op.op = "native" /\ SetNative(Line.op.f, Line.op.ds)
     \/ Line.op.op = "check" /\ AddCheck(Line.op.f, Line.op.d)
     \/ Line.op.op = "clear" /\ ClearCheck
     \/ Line.op.op = "take" /\ Take(Range(Line.obs.taken)) /\ Line.obs.none = (Line.obs.taken = <<>>)
  /\ ShownIs(Line.obs)
TSpec == TInit /\ [][TNext]_tvars
Accept == l = Len(Traces[t]) + 1 => PrintT(ToJson([accepted |-> t]))
=============================================================================
