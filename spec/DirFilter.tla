----------------------------- MODULE DirFilter ------------------------------
(***************************************************************************)
(* Directory filters.  Mirrors crates/vfs/src/loader.rs.  Paths are         *)
(* sequences of names.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Range1(s) == {s[i] : i \in 1..Len(s)}
Holding(path, dirs) == {d \in Range1(dirs) : IsPrefix(d, path)}
\* the innermost included directory that holds the path
Innermost(path, include) ==
  CHOOSE d \in Holding(path, include) : \A e \in Holding(path, include) : Len(e) <= Len(d)
Selected(path, include, exclude) ==
  /\ Holding(path, include) # {}
  /\ ~ \E x \in Holding(path, exclude) : IsPrefix(Innermost(path, include), x)
SelectedFile(path, ext, extensions, include, exclude) ==
  ext \in Range1(extensions) /\ Selected(path, include, exclude)

\* the standard filters: a base directory without some directories in it
Standard(base, names) == [include |-> <<base>>, exclude |-> [i \in 1..Len(names) |-> base \o <<names[i]>>]]
StandardNames == [recursive |-> <<".git">>, package |-> <<".git", "target">>,
                  dependency |-> <<".git", "tests", "examples", "benches">>]
=============================================================================
