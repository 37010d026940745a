--------------------------- MODULE FileSetsCases ----------------------------
(* Recorded partitions of large random populations, and resolutions in them, are those of FileSets. *)
EXTENDS FileSets, Cases
SetOfSeq(s) == {s[i] : i \in 1..Len(s)}
Sets(c) == [i \in 1..Len(c.sets) |-> SetOfSeq(c.sets[i])]
Asked(c, q) == LET s == Partition(c.config, SetOfSeq(c.files))
               IN [i \in 1..Len(s) |-> ResolveIn(s[i], q.anchor, q.rel)]
Ok(c) == /\ Sets(c) = Partition(c.config, SetOfSeq(c.files))
         /\ \A i \in 1..Len(c.queries) : c.queries[i].got = Asked(c, c.queries[i])
Judge == Ok(Cases[k]) \/ PrintT(ToJson([bad |-> k, expected |-> Partition(Cases[k].config, SetOfSeq(Cases[k].files))]))
=============================================================================
