----------------------------- MODULE VfsLogGen ------------------------------
(* All behaviours of VfsLog up to a depth, with what a caller observes, as JSON. *)
EXTENDS VfsLog, Json
CONSTANT Depth
VARIABLE hist
gvars == <<ids, data, log, base, hist>>

Files(i, d) == {[p |-> i[k], id |-> k - 1, c |-> d[k]] : k \in {k \in 1..Len(i) : d[k] # Absent}}
RECURSIVE FileSeq(_, _, _)
FileSeq(i, d, k) == IF k > Len(i) THEN <<>>
                    ELSE (IF d[k] = Absent THEN <<>> ELSE <<[p |-> i[k], id |-> k - 1, c |-> d[k]]>>)
                         \o FileSeq(i, d, k + 1)
LogSeq(l) == [k \in 1..Len(l) |-> [id |-> l[k].id, kind |-> l[k].kind,
                                   exists |-> l[k].kind # "delete",
                                   structure |-> l[k].kind # "modify"]]
Common == [len |-> Len(ids'), pending |-> log' # <<>>, files |-> FileSeq(ids', data', 1),
           ids |-> ids', gone |-> Len(ids') - Cardinality(Files(ids', data'))]
GInit == Init /\ hist = <<>>
GNext ==
  /\ Len(hist) < Depth
  /\ \/ /\ Take
        /\ hist' = Append(hist, [op |-> [op |-> "take"],
                                 obs |-> [log |-> LogSeq(log)] @@ Common])
     \/ \E p \in Paths, c \in Contents \cup {Absent} :
          /\ Set(p, c)
          /\ hist' = Append(hist, [op |-> [op |-> "set", p |-> p, c |-> c],
                                   obs |-> [changed |-> Changes(p, c)] @@ Common])
GSpec == GInit /\ [][GNext]_gvars
\* each complete behaviour is printed once
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
