----------------------------- MODULE ResolveGen -----------------------------
(* Two neighbouring file sets: every anchor and every relative path, resolved in both. *)
EXTENDS FileSets, Json
CONSTANTS Universe, MaxUp, Downs
VARIABLES a, files
\* the files that exist; those under "b" are in the second set
Init == files \in SUBSET Universe /\ a \in Universe
Next == FALSE /\ UNCHANGED <<a, files>>
Spec == Init /\ [][Next]_<<a, files>>
Second == {f \in files : Len(f) > 1 /\ f[2] = "b"}
First == files \ Second
Rels == [up : 0..MaxUp, dots : 0..2, down : Downs]
Res(set, r) == ResolveIn(set, a, r)
\* nothing is found outside the anchor's own set
Inside == \A r \in Rels : \A set \in {First, Second} : Res(set, r) # Missing => a \in set /\ Res(set, r) \in set
Emit == PrintT(ToJson([anchor |-> a, files |-> files,
          answers |-> {[rel |-> r, first |-> Res(First, r), second |-> Res(Second, r)] : r \in Rels}]))
Names == {<<"x">>, <<"a", "x">>, <<"a", "y">>, <<"a", "b", "x">>, <<"b", "x">>, <<"b", "a", "x">>}
RealUniverse == {<<"/">> \o n : n \in Names}
VirtualUniverse == {<<"#">> \o n : n \in Names}
\* a file on the file system and a virtual one may be spelled alike
MixedUniverse == {<<k, "a", "x">> : k \in {"/", "#"}} \cup {<<k, "x">> : k \in {"/", "#"}} \cup {<<"/", "b", "x">>}
DownsDef == {<<"x">>, <<"y">>, <<"a", "x">>, <<"b", "x">>, <<"a", "b", "x">>}
=============================================================================
