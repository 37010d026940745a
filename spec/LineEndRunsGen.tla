--------------------------- MODULE LineEndRunsGen ---------------------------
(* Texts of runs: LineEndRuns says what LineEnds says. *)
EXTENDS LineEndRuns, TLC
CONSTANTS Alphabet, MaxRuns, MaxRun
VARIABLE r
One == INSTANCE LineEnds
Init == r = <<>>
Next == Len(r) < MaxRuns /\ \E c \in Alphabet, n \in 1..MaxRun : (IF r = <<>> THEN TRUE ELSE Last(r)[1] # c) /\ r' = Append(r, <<c, n>>)
Spec == Init /\ [][Next]_r
Agrees == Expand(StripRuns(r)) = One!Strip(Expand(r)) /\ HasCRRuns(r) = One!HasCR(Expand(r)) /\ Merge(StripRuns(r)) = StripRuns(r)
=============================================================================
