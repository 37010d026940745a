---------------------------- MODULE DiscoveryGen ----------------------------
(* All placements of manifests in small directory trees, with what is found from everywhere. *)
EXTENDS Discovery, TLC, Json
CONSTANTS Trees, Has
VARIABLES parent, has
Init == parent \in Trees /\ has \in [DOMAIN parent -> Has]
Next == UNCHANGED <<parent, has>>
Spec == Init /\ [][Next]_<<parent, has>>
Lawful == Laws(parent, has)
\* finding from several places: the union, in any order
Pairs == \A x \in SUBSET (DOMAIN parent) : \A y \in SUBSET (DOMAIN parent) :
  DiscoverAll(parent, has, x \cup y) = DiscoverAll(parent, has, x) \cup DiscoverAll(parent, has, y)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})
Emit == PrintT(ToJson([parent |-> parent, has |-> has,
                       found |-> [d \in DOMAIN parent |-> Sorted(Discover(parent, has, d))]]))
\* every tree with up to n directories (the parent of each is an earlier one)
TreesOf(n) == {p \in [1..n -> 0..(n - 1)] : p[1] = 0 /\ \A d \in 2..n : p[d] # 0 /\ p[d] < d}
Trees4 == UNION {TreesOf(n) : n \in 1..4}
Trees5 == TreesOf(5)
Trees3 == TreesOf(3)
Deep == {<<0, 1, 2, 2, 3, 5, 3>>, <<0, 1, 1, 1, 2, 3, 5>>, <<0, 1, 2, 3, 4, 5, 6>>}
=============================================================================
