----------------------------- MODULE Discovery ------------------------------
(***************************************************************************)
(* Finding the manifests of the projects at a place.  Mirrors               *)
(* crates/project_model/src/lib.rs.  A tree of directories is given by the  *)
(* parent of each (0: the root of the file system has none); has[d] tells   *)
(* what is called Dove.toml in directory d.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

\* what counts as a manifest: a file, also by way of a symbolic link
Kinds == {"none", "file", "link", "dir", "dangling", "other"}
Manifest(kind) == kind \in {"file", "link"}

RECURSIVE Enclosing(_, _)
\* d and the directories it lies in, from the inside outwards
Enclosing(parent, d) == IF d = 0 THEN <<>> ELSE <<d>> \o Enclosing(parent, parent[d])
Children(parent, d) == {c \in DOMAIN parent : parent[c] = d}
First(s, P(_)) == s[CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in 1..(i - 1) : ~P(s[j])]

\* the directories whose manifests are found from d
Discover(parent, has, d) ==
  LET chain == Enclosing(parent, d) P(x) == Manifest(has[x])
  IN IF \E i \in 1..Len(chain) : P(chain[i]) THEN {First(chain, P)}
     ELSE {c \in Children(parent, d) : P(c)}
\* a start that cannot be read finds nothing of its own (but encloses nothing that could hide)
DiscoverAll(parent, has, starts) == UNION {Discover(parent, has, d) : d \in starts}

(* laws *)
Laws(parent, has) ==
  \A d \in DOMAIN parent :
    LET r == Discover(parent, has, d) IN
    /\ \A m \in r : Manifest(has[m])
    \* from where a manifest was found, the same one is found
    /\ \A m \in r : Discover(parent, has, m) = {m}
    \* a manifest further outside hides all children
    /\ (\E i \in 1..Len(Enclosing(parent, d)) : Manifest(has[Enclosing(parent, d)[i]])) => Cardinality(r) = 1
    \* nothing deeper than one level
    /\ \A m \in r : m \in Children(parent, d) \/ \E i \in 1..Len(Enclosing(parent, d)) : Enclosing(parent, d)[i] = m
=============================================================================
