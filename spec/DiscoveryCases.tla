--------------------------- MODULE DiscoveryCases ---------------------------
(* Recorded discoveries in large random trees. *)
EXTENDS Cases, Discovery
SetOf(s) == {s[i] : i \in 1..Len(s)}
Ok(c) == /\ \A i \in 1..Len(c.one) : SetOf(c.one[i].found) = Discover(c.parent, c.has, c.one[i].start)
                                     /\ Len(c.one[i].found) = Cardinality(SetOf(c.one[i].found))
         /\ \A i \in 1..Len(c.all) : SetOf(c.all[i].found) = DiscoverAll(c.parent, c.has, SetOf(c.all[i].starts))
                                     /\ Len(c.all[i].found) = Cardinality(SetOf(c.all[i].found))
Judge == Ok(Cases[k]) \/ PrintT(ToJson([bad |-> k]))
=============================================================================
