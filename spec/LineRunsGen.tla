---------------------------- MODULE LineRunsGen -----------------------------
(* Texts of runs: the arithmetic of LineRuns is the counting of LineTable. *)
EXTENDS LineRuns, TLC, Json
CONSTANTS Alphabet, MaxRuns, MaxRun
VARIABLE t
Table == INSTANCE LineTable
Init == t = <<>>
Next == Len(t) < MaxRuns /\ \E c \in Alphabet, n \in 1..MaxRun : t' = Append(t, <<c, n>>)
Spec == Init /\ [][Next]_t
RECURSIVE Expand(_)
Expand(x) == IF x = <<>> THEN <<>> ELSE [i \in 1..x[1][2] |-> x[1][1]] \o Expand(Tail(x))
RECURSIVE Chars(_, _)
Chars(p, i) == IF i = 0 THEN 0 ELSE Count(t, p, i) + Chars(p, i - 1)
Places == UNION {{[r |-> i, m |-> m] : m \in 0..t[i][2]} : i \in 1..Len(t)}
Agrees == LET s == Expand(t)
          IN \A p \in Places :
               LET i == Chars(p, Len(t)) IN
               /\ Point(t, p) = Table!Points(s)[i + 1]
               /\ \A q \in Places : LET j == Chars(q, Len(t)) IN
                    i <= j => Pieces(t, p, q) = Len(Table!Pieces(s, i, j))
=============================================================================
