--------------------------- MODULE IncrementalGen ---------------------------
(* Histories of changes and questions, with the facts that determine the answers. *)
EXTENDS Incremental, TLC, Json, Randomization
CONSTANTS Depth, MaxRoots, MaxChanges, Rootless, Sample
VARIABLE hist
gvars == <<roots, owner, text, rev, highrev, stamp, memo, hist>>

\* partitions of some of the files into n roots, each local or a library
Partitions(n) == {[i \in 1..n |-> [lib |-> l[i], files |-> {f \in Files : a[f] = i}]] :
                    a \in [Files -> (IF Rootless THEN 0 ELSE 1)..n], l \in [1..n -> BOOLEAN]}
AllPartitions == UNION {Partitions(n) : n \in 1..MaxRoots}
RECURSIVE Lists(_)
Lists(n) == IF n = 0 THEN {<<>>}
            ELSE LET s == Lists(n - 1) IN s \cup {Append(l, <<f, t>>) : l \in {x \in s : Len(x) = n - 1}, f \in Files, t \in Texts \cup {Empty}}

\* in random histories only some of the many changes are looked at
Some(S) == IF Sample THEN RandomSubset(IF Cardinality(S) < 6 THEN Cardinality(S) ELSE 6, S) ELSE S

Record(op) == hist' = Append(hist, op)
GInit == IInit /\ hist = <<>>
\* a file is told for the first time when its root is told
GChange == \E cs \in Some(Lists(MaxChanges)) : \E rs \in {<<>>} \cup {<<p>> : p \in Some(AllPartitions)} :
  /\ cs # <<>> \/ rs # <<>>
  /\ Change(rs, cs)
  /\ Record([op |-> "change",
             roots |-> IF rs = <<>> THEN <<>> ELSE <<[i \in 1..Len(rs[1]) |-> [lib |-> rs[1][i].lib, files |-> rs[1][i].files]]>>,
             files |-> cs])
GAsk == \E f \in Files : Ask(f) /\ Record([op |-> "ask", f |-> f, t |-> text[f][1]])
Last == hist # <<>> /\ hist[Len(hist)].op = "ask"
GNext == Len(hist) < Depth /\ (GChange \/ GAsk)
GSpec == GInit /\ [][GNext]_gvars
End == [text |-> text, owner |-> [f \in Files |-> IF Belongs(f) THEN owner[f] ELSE <<>>],
        roots |-> [i \in 1..Len(roots) |-> [lib |-> roots[i].lib, files |-> roots[i].files]]]
Emit == Len(hist) = Depth => PrintT(ToJson([hist |-> hist, end |-> End]))
\* the engine alone, with forgetting
ENext == UNCHANGED hist /\
         \/ \E cs \in Lists(MaxChanges) : \E rs \in {<<>>} \cup {<<p>> : p \in AllPartitions} : cs # <<>> /\ Change(rs, cs)
         \/ \E f \in Files : Ask(f) \/ Forget(f)
ESpec == GInit /\ [][ENext]_gvars
Bounded == rev <= Depth
=============================================================================
