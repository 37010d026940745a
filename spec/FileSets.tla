------------------------------ MODULE FileSets ------------------------------
(***************************************************************************)
(* Partitioning files by configured roots, and resolving relative paths    *)
(* inside a file set.  Mirrors crates/vfs/src/file_set.rs.                  *)
(* A path is a sequence of strings: "/" for a path of the file system or   *)
(* "#" for a virtual one, then its component names.                        *)
(* A configuration is a sequence of sets, each a sequence of roots.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

\* the roots (set number, root) that contain a path
Matching(config, path) ==
  {<<i, j>> \in (1..Len(config)) \X (1..20) :
     j <= Len(config[i]) /\ IsPrefix(config[i][j], path)}

\* the set a path belongs to: the one with the longest root, the earliest of equals, or the extra one
SetOf(config, path) ==
  LET m == Matching(config, path)
      better(a, b) == \/ Len(config[a[1]][a[2]]) > Len(config[b[1]][b[2]])
                      \/ /\ Len(config[a[1]][a[2]]) = Len(config[b[1]][b[2]])
                         /\ a[1] <= b[1]
  IN IF m = {} THEN Len(config) + 1
     ELSE (CHOOSE a \in m : \A b \in m : better(a, b))[1]

\* the sets of files, the extra one last
Partition(config, files) ==
  [i \in 1..(Len(config) + 1) |-> {f \in files : SetOf(config, f) = i}]

(***************************************************************************)
(* The property (P09), as laws of this definition.                         *)
(***************************************************************************)
ExactlyOne(config, files) ==
  \A f \in files : Cardinality({i \in 1..(Len(config) + 1) : f \in Partition(config, files)[i]}) = 1
NothingElse(config, files) ==
  UNION {Partition(config, files)[i] : i \in 1..(Len(config) + 1)} = files
LongestWins(config, files) ==
  \A f \in files :
    LET s == SetOf(config, f) IN
    IF s > Len(config) THEN Matching(config, f) = {}
    ELSE \E j \in 1..Len(config[s]) :
           /\ IsPrefix(config[s][j], f)
           /\ \A a \in Matching(config, f) : Len(config[a[1]][a[2]]) <= Len(config[s][j])

(***************************************************************************)
(* Resolving (P10).  A relative path is [up, dots, down]: how often it     *)
(* climbs, how many "." follow (they mean nothing), then the names it      *)
(* descends.                                                               *)
(***************************************************************************)
Missing == <<"?">>   \* no file has this path
\* paths of the file system cannot climb above the root, virtual ones must not
Target(anchor, rel) ==
  LET dir == Front(anchor)
  IN IF rel.up < Len(dir) THEN SubSeq(dir, 1, Len(dir) - rel.up) \o rel.down
     ELSE IF anchor[1] = "/" THEN <<"/">> \o rel.down ELSE Missing
ResolveIn(set, anchor, rel) ==
  IF anchor \notin set THEN Missing
  ELSE LET t == Target(anchor, rel)
       IN IF t = Missing THEN Missing ELSE IF t \in set THEN t ELSE Missing
=============================================================================
