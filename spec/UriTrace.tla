------------------------------ MODULE UriTrace ------------------------------
(***************************************************************************)
(* Recorded histories of the real server, where every document is written    *)
(* in many ways.  A line is [ev, uri, version, line, pubs]: an open, change  *)
(* or close of what the URI names, its new text being known by the line of   *)
(* its only error, and what was published until the server was idle.         *)
(***************************************************************************)
EXTENDS Uri, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES opened, t, l
tvars == <<opened, t, l>>
TInit == opened = {} /\ t \in 1..Len(Traces) /\ l = 1
Line == Traces[t][l]
Publishes(path) ==   \* the texts are all different
  /\ Len(Line.pubs) = 1
  /\ Doc(Line.pubs[1].uri) = <<path>> /\ Line.pubs[1].version = Line.version /\ Line.pubs[1].line = Line.line
Quiet == Line.pubs = <<>>
TNext ==
  /\ l <= Len(Traces[t]) /\ l' = l + 1 /\ t' = t
  /\ LET d == Doc(Line.uri) IN
     \/ d = <<>> /\ Quiet /\ UNCHANGED opened
     \/ d # <<>> /\ Line.ev = "open" /\ Publishes(d[1]) /\ opened' = opened \cup {d[1]}
     \/ d # <<>> /\ Line.ev = "change" /\ d[1] \in opened /\ Publishes(d[1]) /\ UNCHANGED opened
     \/ d # <<>> /\ Line.ev = "change" /\ d[1] \notin opened /\ Quiet /\ UNCHANGED opened
     \/ d # <<>> /\ Line.ev = "close" /\ Quiet /\ opened' = opened \ {d[1]}
TSpec == TInit /\ [][TNext]_tvars
Accept == l = Len(Traces[t]) + 1 => PrintT(ToJson([accepted |-> t]))
=============================================================================
