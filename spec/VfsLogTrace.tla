---------------------------- MODULE VfsLogTrace -----------------------------
(* Recorded histories of the real file system must be behaviours of VfsLog. *)
EXTENDS VfsLog, Json, IOUtils, Integers
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES t, l
tvars == <<ids, data, log, base, t, l>>
TInit == Init /\ t \in 1..Len(Traces) /\ l = 1
Line == Traces[t][l]
SeqOf(s) == s
LogOf(s) == [k \in 1..Len(s) |-> [id |-> s[k].id, kind |-> s[k].kind]]
Observed(o) ==
  /\ o.len = Len(ids') /\ o.pending = (log' # <<>>) /\ o.ids = ids'
  /\ {[p |-> o.files[k].p, id |-> o.files[k].id, c |-> o.files[k].c] : k \in 1..Len(o.files)}
       = {[p |-> ids'[k], id |-> k - 1, c |-> data'[k]] : k \in {k \in 1..Len(ids') : data'[k] # Absent}}
TNext ==
  /\ l <= Len(Traces[t]) /\ l' = l + 1 /\ t' = t
  /\ \/ /\ Line.op.op = "take" /\ Take /\ LogOf(Line.obs.log) = log
     \/ /\ Line.op.op = "set" /\ Set(Line.op.p, Line.op.c)
        /\ Line.obs.changed = Changes(Line.op.p, Line.op.c)
  /\ Observed(Line.obs)
TSpec == TInit /\ [][TNext]_tvars
Accept == l = Len(Traces[t]) + 1 => PrintT(ToJson([accepted |-> t]))
=============================================================================
