---------------------------- MODULE DirFilterGen ----------------------------
(* All small directory filters, with the queries they select. *)
EXTENDS DirFilter, TLC, Json
CONSTANTS Dirs, MaxList, Queries
VARIABLES include, exclude
Init == include = <<>> /\ exclude = <<>>
Next == \/ /\ Len(include) < MaxList /\ \E d \in Dirs : include' = Append(include, d)
           /\ UNCHANGED exclude
        \/ /\ Len(exclude) < MaxList /\ \E d \in Dirs : exclude' = Append(exclude, d)
           /\ UNCHANGED include
Spec == Init /\ [][Next]_<<include, exclude>>
\* laws: order does not matter; an excluded directory is never selected under its own include;
\* including a directory again inside an excluded one brings it back
OrderFree == \A q \in Queries : Selected(q, include, exclude) = Selected(q, Reverse(include), Reverse(exclude))
ExcludeWins == \A q \in Queries : (q \in Range1(include) /\ q \in Range1(exclude)) => ~Selected(q, include, exclude)
Reincluded == \A q \in Queries : (q \in Range1(include) /\ q \notin Range1(exclude)) => Selected(q, include, exclude)
Emit == PrintT(ToJson([include |-> include, exclude |-> exclude,
                       selected |-> {q \in Queries : Selected(q, include, exclude)}]))
DirsDef == {<<>>, <<"a">>, <<"b">>, <<"a", "a">>, <<"a", "b">>}
DirsSmall == {<<"a">>, <<"a", "b">>, <<"b">>}
DirsBig == DirsDef \cup {<<"ab">>, <<"a", "b", "a">>}
QueriesDef == {<<>>, <<"a">>, <<"b">>, <<"ab">>, <<"a", "a">>, <<"a", "b">>, <<"a", "a", "c">>,
               <<"a", "b", "a">>, <<"a", "b", "a", "b">>, <<"b", "a">>, <<"a", "ab">>}
=============================================================================
