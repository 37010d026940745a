----------------------------- MODULE EditRunsGen ----------------------------
(* Changes of texts of runs are those of DocSync. *)
EXTENDS EditRuns, TLC
CONSTANTS Alphabet, MaxRuns, MaxRun
VARIABLES t, opened, held
One == INSTANCE DocSync WITH Docs <- {}
Init == t = <<>> /\ opened = {} /\ held = <<>>
Next == /\ Len(t) < MaxRuns /\ \E c \in Alphabet, n \in 1..MaxRun : (IF t = <<>> THEN TRUE ELSE Last(t)[1] # c) /\ t' = Append(t, <<c, n>>)
        /\ UNCHANGED <<opened, held>>
Spec == Init /\ [][Next]_<<t, opened, held>>
Places == UNION {{[r |-> i, m |-> m] : m \in 0..t[i][2]} : i \in 1..Len(t)}
News == {<<>>, <<<<10, 2>>>>, <<<<97, 1>>, <<10, 1>>>>}
Agrees == \A p \in Places, q \in Places : Offset(t, p) <= Offset(t, q) => \A n \in News, u \in BOOLEAN :
            {Expand(After(t, [p |-> p, q |-> q, new |-> n]))} = One!Apply(Expand(t), [range |-> PlaceRange(t, p, q, u), text |-> Expand(n), utf8 |-> u])
=============================================================================
