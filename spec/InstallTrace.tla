---------------------------- MODULE InstallTrace ----------------------------
(* What the real extension did to get its tools must be a behaviour of Install that has the property. *)
EXTENDS Install, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES t, l
tvars == <<ivars, t, l>>
Line == Traces[t][l]
Range(s) == {s[i] : i \in 1..Len(s)}
TInit == t \in 1..Len(Traces) /\ l = 2 /\ IInit(Traces[t][1].final)
At == PrintT(ToJson([at |-> t, line |-> l])) \/ TRUE
TNext ==
  /\ l <= Len(Traces[t]) /\ l' = l + 1 /\ t' = t /\ At
  /\ \/ Line.ev = "open" /\ Open(Line.w, Line.token, Range(Line.own))
     \/ Line.ev = "kill" /\ Kill(Line.w)
     \/ Line.ev = "list" /\ FetchList(Line.w, Line.token)
     \/ Line.ev = "tool" /\ FetchTool(Line.w, Line.b)
     \/ Line.ev = "fails" /\ Fails(Line.w)
     \/ Line.ev = "dialog" /\ Dialog(Line.w)
     \/ Line.ev = "choose" /\ Choose(Line.w, Line.c)
     \/ Line.ev = "type" /\ Type(Line.w, Line.kept, Line.token)
     \/ Line.ev = "tell" /\ Tell(Line.w)
     \/ Line.ev = "files" /\ Files(Line.final) /\ \A b \in Tools : final[b] = "complete" => Line.final[b] = "complete"
     \/ Line.ev = "run" /\ Line.b \in Tools /\ RunTool(Line.w, Line.b, Line.named, Line.works)
     \/ Line.ev = "start" /\ Line.b = 1 /\ StartServer(Line.w, 1, Line.named)
     \/ Line.ev = "quiet" /\ (\A w \in Windows : Settled(w)) /\ UNCHANGED ivars
  /\ Sound'
TSpec == TInit /\ [][TNext]_tvars
Accept == l = Len(Traces[t]) + 1 => PrintT(ToJson([accepted |-> t]))
=============================================================================
