----------------------------- MODULE LineEndRuns ----------------------------
(* LineEnds for long texts, given as runs.  LineEndRunsGen checks that the two agree. *)
EXTENDS Utf, Runs
Before(r, i) == r[i][1] = CR /\ i < Len(r) /\ r[i + 1][1] = LF
StripRuns(r) == Merge([i \in 1..Len(r) |-> <<r[i][1], r[i][2] - (IF Before(r, i) THEN 1 ELSE 0)>>])
HasCRRuns(r) == \E i \in 1..Len(r) : r[i][1] = CR
=============================================================================
