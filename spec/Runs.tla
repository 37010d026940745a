-------------------------------- MODULE Runs --------------------------------
(* Long texts as runs: <<c, n>> is n times the character c; no two runs of the same character are neighbours. *)
EXTENDS Naturals, Sequences, SequencesExt
Joined(a, x) == IF a = <<>> THEN <<x>>
                ELSE IF Last(a)[1] = x[1] THEN Append(Front(a), <<x[1], Last(a)[2] + x[2]>>)
                ELSE Append(a, x)
Merge(r) == FoldLeft(Joined, <<>>, SelectSeq(r, LAMBDA x : x[2] > 0))
RECURSIVE Expand(_)
Expand(x) == IF x = <<>> THEN <<>> ELSE [i \in 1..x[1][2] |-> x[1][1]] \o Expand(Tail(x))
=============================================================================
