------------------------------ MODULE LineEnds ------------------------------
(***************************************************************************)
(* Removing the carriage return of every CR LF pair.  Mirrors               *)
(* crates/move_language_server/src/line_index.rs normalize.                 *)
(***************************************************************************)
EXTENDS Utf, SequencesExt
\* the in-place definition: every position but those of a CR just before a LF
Kept(s) == {i \in 1..Len(s) : ~(s[i] = CR /\ i < Len(s) /\ s[i + 1] = LF)}
RECURSIVE Strip(_)
Strip(s) == IF s = <<>> THEN <<>>
            ELSE IF Len(s) > 1 /\ s[1] = CR /\ s[2] = LF THEN <<LF>> \o Strip(SubSeq(s, 3, Len(s)))
            ELSE <<s[1]>> \o Strip(Tail(s))
HasCR(s) == \E i \in 1..Len(s) : s[i] = CR
\* every line feed written as CR LF
RECURSIVE Crlf(_)
Crlf(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] = LF THEN <<CR, LF>> ELSE <<s[1]>>) \o Crlf(Tail(s))
(* laws (P06) *)
OnlyPairs(s) == Len(Strip(s)) = Cardinality(Kept(s))
SameAnalysis(s) == ~HasCR(s) => Strip(Crlf(s)) = s /\ Strip(s) = s
=============================================================================
