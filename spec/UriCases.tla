------------------------------ MODULE UriCases ------------------------------
(* URIs the real server published, and the document each was published for. *)
EXTENDS Uri, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Init == i \in 1..Len(Cases)
Spec == Init /\ [][FALSE]_i
Judge == Doc(Cases[i].u) = <<Cases[i].path>> \/ PrintT(ToJson([bad |-> i, names |-> Doc(Cases[i].u)]))
=============================================================================
