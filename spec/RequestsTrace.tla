---------------------------- MODULE RequestsTrace ---------------------------
(* Recorded conversations must be behaviours of Requests.
   A line is {ev: ask|note|reply|answer|quiet, id, method, params, outcome}; ids are strings. *)
EXTENDS Requests, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES t, l
TInit == RInit /\ t \in 1..Len(Traces) /\ l = 1
Line == Traces[t][l]
TNext ==
  /\ l <= Len(Traces[t]) /\ l' = l + 1 /\ t' = t
  /\ \/ Line.ev = "ask" /\ Line.id \notin Ids /\ Ask(Line.id, Line.method, Line.params)
     \/ Line.ev = "note" /\ Notify
     \/ Line.ev = "reply" /\ Reply
     \/ Line.ev = "answer" /\ Answer(Line.id, Line.outcome)
     \/ Line.ev = "quiet" /\ Quiet
TSpec == TInit /\ [][TNext]_<<down, pending, t, l>>
Accept == l = Len(Traces[t]) + 1 => PrintT(ToJson([accepted |-> t]))
=============================================================================
