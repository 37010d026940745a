------------------------------ MODULE LineRuns ------------------------------
(***************************************************************************)
(* LineTable for texts given as runs: <<c, n>> is n times the character c. *)
(* A place is [r, m]: after the first r - 1 runs and m characters of run r. *)
(* What LineTable counts character by character is arithmetic here, so     *)
(* lines may be longer, and lines may be more, than any table of           *)
(* characters can list.  LineRunsGen checks that the two agree.            *)
(***************************************************************************)
EXTENDS Utf
\* the number of characters of run i before the place p
Count(t, p, i) == IF i < p.r THEN t[i][2] ELSE IF i = p.r THEN p.m ELSE 0
RECURSIVE Sum(_, _, _, _, _)
Sum(t, p, f(_), i, j) == IF i > j THEN 0 ELSE f(t[i][1]) * Count(t, p, i) + Sum(t, p, f, i + 1, j)
Feeds(c) == IF c = LF THEN 1 ELSE 0
Offset(t, p) == Sum(t, p, Bytes, 1, Len(t))
Line(t, p) == Sum(t, p, Feeds, 1, Len(t))
\* the last run with a line feed before the place
LastFeed(t, p) == LET b == {i \in 1..Len(t) : t[i][1] = LF /\ Count(t, p, i) > 0}
                  IN IF b = {} THEN 0 ELSE CHOOSE i \in b : \A j \in b : j <= i
Col8(t, p) == Sum(t, p, Bytes, LastFeed(t, p) + 1, Len(t))
Col16(t, p) == Sum(t, p, Units, LastFeed(t, p) + 1, Len(t))
Point(t, p) == [off |-> Offset(t, p), line |-> Line(t, p), c8 |-> Col8(t, p), c16 |-> Col16(t, p)]
\* the number of pieces between two places, and the first and last cut
Pieces(t, p, q) ==
  IF Offset(t, p) = Offset(t, q) THEN 0
  ELSE Line(t, q) - Line(t, p) + (IF Col8(t, q) = 0 THEN 0 ELSE 1)
=============================================================================
