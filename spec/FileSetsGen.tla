---------------------------- MODULE FileSetsGen -----------------------------
(* All configurations over small sets of roots, with the partition of a fixed population of files. *)
EXTENDS FileSets, Json
CONSTANTS Roots, Files, MaxSets, MaxRoots
VARIABLE config
\* a configuration is built root by root
Init == config = <<>>
Next == \/ Len(config) < MaxSets /\ config' = Append(config, <<>>)
        \/ /\ config # <<>> /\ Len(config[Len(config)]) < MaxRoots
           /\ \E r \in Roots : config' = [config EXCEPT ![Len(config)] = Append(@, r)]
Spec == Init /\ [][Next]_config
Laws == ExactlyOne(config, Files) /\ NothingElse(config, Files) /\ LongestWins(config, Files)
\* reversing the roots within each set changes nothing
OrderFree == Partition([i \in 1..Len(config) |-> Reverse(config[i])], Files) = Partition(config, Files)
Emit == PrintT(ToJson([config |-> config, sets |-> Partition(config, Files)]))
Of(kind, paths) == {<<kind>> \o p : p \in paths}
Small == {<<>>, <<"a">>, <<"ab">>, <<"a", "a">>, <<"a", "b">>}
Some == {<<"a">>, <<"ab">>, <<"b">>, <<"a", "a">>, <<"a", "ab">>, <<"a", "b", "c">>, <<"ab", "a">>,
         <<"a", "a", "x">>, <<"abc", "x">>, <<"A", "a">>, <<"a\\b">>, <<"a", "a\\">>}
RealRoots == Of("/", Small)
VirtualRoots == Of("#", Small)
RealBig == Of("/", Small \cup {<<"a", "a", "a">>, <<"b">>})
VirtualBig == Of("#", Small \cup {<<"a", "a", "a">>, <<"b">>})
\* the same spelling on the file system and outside of it are two paths
MixedRoots == Of("/", {<<>>, <<"a">>, <<"a", "a">>}) \cup Of("#", {<<>>, <<"a">>})
FilesDef == Of("/", Some) \cup Of("#", Some)
=============================================================================
