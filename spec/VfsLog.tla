------------------------------- MODULE VfsLog -------------------------------
(***************************************************************************)
(* The virtual file system: paths are interned for ever, every path has    *)
(* contents or is absent, and every effective update is logged until the   *)
(* log is taken.  Mirrors crates/vfs/src/lib.rs and path_interner.rs.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Paths,     \* path strings, e.g. {"/a", "/b"}
          Contents,  \* contents strings
          Absent     \* "-": the contents of a removed or never created file

VARIABLES ids,   \* sequence of the paths named so far: ids[i] has file id i-1
          data,  \* contents per id: a sequence as long as ids
          log,   \* changes since the log was last taken: [id, kind]
          base   \* (history) the contents when the log was last taken

vars == <<ids, data, log, base>>

TypeOK == /\ ids \in Seq(Paths) /\ Len(data) = Len(ids)
          /\ \A i \in 1..Len(data) : data[i] \in Contents \cup {Absent}

Init == ids = <<>> /\ data = <<>> /\ log = <<>> /\ base = <<>>

IdOf(p) == CHOOSE i \in 1..Len(ids) : ids[i] = p
Known(p) == \E i \in 1..Len(ids) : ids[i] = p

Kind(old, new) == CASE old = Absent -> "create"
                    [] new = Absent -> "delete"
                    [] OTHER -> "modify"

\* what an update of path p to contents c does
NewIds(p) == IF Known(p) THEN ids ELSE Append(ids, p)
OldOf(p) == IF Known(p) THEN data[IdOf(p)] ELSE Absent
Changes(p, c) == OldOf(p) # c

Set(p, c) ==
  /\ ids' = NewIds(p)
  /\ LET i == IF Known(p) THEN IdOf(p) ELSE Len(ids) + 1
         d == IF Known(p) THEN data ELSE Append(data, Absent)
     IN /\ data' = [d EXCEPT ![i] = c]
        /\ log' = IF Changes(p, c)
                  THEN Append(log, [id |-> i - 1, kind |-> Kind(OldOf(p), c)])
                  ELSE log
  /\ UNCHANGED base

Take == log' = <<>> /\ base' = data /\ UNCHANGED <<ids, data>>

Next == Take \/ \E p \in Paths, c \in Contents \cup {Absent} : Set(p, c)

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The property (P08).                                                     *)
(***************************************************************************)
\* different paths have different ids
Distinct == \A i, j \in 1..Len(ids) : ids[i] = ids[j] => i = j

\* a path keeps its id for ever
Stable == [][Len(ids) <= Len(ids') /\ SubSeq(ids', 1, Len(ids)) = ids]_vars

\* contents of id i (1-based) in a sequence that may not yet know i
At(d, i) == IF i <= Len(d) THEN d[i] ELSE Absent

\* Replaying the log from the contents at the last taking: each entry must be possible (a file is
\* created when absent, modified or deleted when present) and the existence it leads to must be
\* the present one; a file without entries has the contents it had.
RECURSIVE ExistsAfter(_, _, _, _)
ExistsAfter(d, l, n, i) ==   \* existence of id i after the first n entries of log l, or "impossible"
  IF n = 0 THEN (IF At(d, i) = Absent THEN "no" ELSE "yes")
  ELSE LET before == ExistsAfter(d, l, n - 1, i)
           e == l[n]
       IN IF e.id # i - 1 THEN before
          ELSE CASE e.kind = "create" /\ before = "no" -> "yes"
                 [] e.kind = "modify" /\ before = "yes" -> "yes"
                 [] e.kind = "delete" /\ before = "yes" -> "no"
                 [] OTHER -> "impossible"
Exists(d, l, i) == ExistsAfter(d, l, Len(l), i)
Touched(i) == \E k \in 1..Len(log) : log[k].id = i - 1
LogReproduces ==
  \A i \in 1..Len(ids) :
    /\ Exists(base, log, i) = (IF data[i] = Absent THEN "no" ELSE "yes")
    /\ ~Touched(i) => data[i] = At(base, i)

=============================================================================
