------------------------------- MODULE Cases --------------------------------
(* A table of recorded cases, visited one per state, so that TLC can judge each (many in parallel). *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE k
Stride == 16
Init == k \in 1..(IF Len(Cases) < Stride THEN Len(Cases) ELSE Stride)
Next == k + Stride <= Len(Cases) /\ k' = k + Stride
Spec == Init /\ [][Next]_k
=============================================================================
