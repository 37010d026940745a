------------------------------ MODULE PathOps ------------------------------
(***************************************************************************)
(* Paths as sequences of component names, and as texts (sequences of       *)
(* code points).  Mirrors crates/paths/src/lib.rs (real paths, Unix) and   *)
(* crates/vfs/src/vfs_path.rs (virtual paths).                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Slash == 47   \* '/'
Dot == 46     \* '.'

\* ------------------------------------------------------------ components
\* the pieces of a text between slashes
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, i, cur) ==
  IF i > Len(s) THEN <<cur>>
  ELSE IF s[i] = Slash THEN <<cur>> \o SplitFrom(s, i + 1, <<>>)
  ELSE SplitFrom(s, i + 1, Append(cur, s[i]))
Split(s) == SplitFrom(s, 1, <<>>)

\* components of an absolute real path: repeated separators and "." do not count
Comps(s) == SelectSeq(Split(s), LAMBDA c : c # <<>> /\ c # <<Dot>>)
Up == <<Dot, Dot>>

IsAbsolute(s) == s # <<>> /\ s[1] = Slash

\* resolving ".." without leaving the root
RECURSIVE Resolve(_, _)
Resolve(stack, rest) ==
  IF rest = <<>> THEN stack
  ELSE IF Head(rest) = Up
       THEN Resolve(IF stack = <<>> THEN <<>> ELSE Front(stack), Tail(rest))
       ELSE Resolve(Append(stack, Head(rest)), Tail(rest))
Normal(comps) == Resolve(<<>>, comps)
Normalize(s) == Normal(Comps(s))

RECURSIVE Unsplit(_)
Unsplit(comps) == IF comps = <<>> THEN <<>> ELSE <<Slash>> \o Head(comps) \o Unsplit(Tail(comps))
\* the text of an absolute path
Text(comps) == IF comps = <<>> THEN <<Slash>> ELSE Unsplit(comps)

\* joining a path text to the components of an absolute one
Join(comps, s) == IF IsAbsolute(s) THEN Comps(s) ELSE comps \o Comps(s)

Parent(comps) == Front(comps)                       \* defined when comps # <<>>
Under(comps, base) == IsPrefix(base, comps)
Stripped(comps, base) == SubSeq(comps, Len(base) + 1, Len(comps))

\* the position of the last dot of a name, 0 if there is none
LastDot(name) ==
  LET dots == {i \in 1..Len(name) : name[i] = Dot}
  IN IF dots = {} THEN 0 ELSE CHOOSE i \in dots : \A j \in dots : j <= i

\* stem and extension of a name: [stem, hasExt, ext]
StemExt(name) ==
  LET d == LastDot(name)
  IN IF d <= 1 THEN [stem |-> name, hasExt |-> FALSE, ext |-> <<>>]
     ELSE [stem |-> SubSeq(name, 1, d - 1), hasExt |-> TRUE, ext |-> SubSeq(name, d + 1, Len(name))]

\* ------------------------------------------------------------ virtual paths
LastSlash(s) ==
  LET p == {i \in 1..Len(s) : s[i] = Slash}
  IN IF p = {} THEN 0 ELSE CHOOSE i \in p : \A j \in p : j <= i

\* "no result" is <<>>, a result x is <<x>>
VPop(s) == IF LastSlash(s) = 0 THEN <<>> ELSE <<SubSeq(s, 1, LastSlash(s) - 1)>>

UpSlash == <<Dot, Dot, Slash>>
DotSlash == <<Dot, Slash>>
RECURSIVE TrimDots(_)
TrimDots(s) == IF IsPrefix(DotSlash, s) THEN TrimDots(SubSeq(s, 3, Len(s))) ELSE s
RECURSIVE VJoin(_, _)
VJoin(s, rel) ==
  IF IsPrefix(UpSlash, rel)
  THEN IF LastSlash(s) = 0 THEN <<>> ELSE VJoin(SubSeq(s, 1, LastSlash(s) - 1), SubSeq(rel, 4, Len(rel)))
  ELSE <<s \o <<Slash>> \o TrimDots(rel)>>

\* name and extension of a virtual path
VNameExt(s) ==
  LET t == IF s # <<>> /\ s[Len(s)] = Slash THEN Front(s) ELSE s
      name == SubSeq(t, LastSlash(t) + 1, Len(t))
  IN IF name = <<>> THEN <<>> ELSE <<StemExt(name)>>

\* ------------------------------------------------------------ everything a caller can ask
Observations(s, Rels, Bases) ==
  LET c == Comps(s)
      named == c # <<>> /\ c[Len(c)] # Up
  IN [ norm |-> Normalize(s),
       comps |-> c,
       parent |-> IF c = <<>> THEN <<>> ELSE <<Parent(c)>>,
       name |-> IF named THEN <<c[Len(c)]>> ELSE <<>>,
       split |-> IF named THEN <<StemExt(c[Len(c)])>> ELSE <<>>,
       joins |-> [r \in 1..Len(Rels) |-> [raw |-> Join(c, Rels[r]), norm |-> Normal(Join(c, Rels[r]))]],
       under |-> [b \in 1..Len(Bases) |-> Under(c, Comps(Bases[b]))],
       nunder |-> [b \in 1..Len(Bases) |-> Under(Normalize(s), Normalize(Bases[b]))],
       strip |-> [b \in 1..Len(Bases) |-> IF Under(c, Comps(Bases[b]))
                                          THEN <<Stripped(c, Comps(Bases[b]))>> ELSE <<>>],
       same |-> [b \in 1..Len(Bases) |-> Normalize(s) = Normalize(Bases[b])],
       vparent |-> VPop(s),
       vname |-> VNameExt(s),
       vjoins |-> [r \in 1..Len(Rels) |-> VJoin(s, Rels[r])],
       vunder |-> [b \in 1..Len(Bases) |-> IsPrefix(Bases[b], s)] ]
=============================================================================
