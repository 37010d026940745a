--------------------------- MODULE DiagnosticsGen ---------------------------
(* Every short list of errors of small texts, with what must be shown: laws of the specification itself. *)
EXTENDS Diagnostics, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES s, errors
Init == s = <<>> /\ errors = <<>>
Offsets == {Offset(s, i) : i \in 0..Len(s)}
Next == \/ Len(s) < MaxLen /\ errors = <<>> /\ \E c \in Alphabet : s' = Append(s, c) /\ errors' = errors
        \/ Len(errors) < 2 /\ s' = s
           /\ \E f \in Offsets, t \in Offsets : f <= t /\ (errors # <<>> => errors[Len(errors)].from <= f)
                /\ errors' = Append(errors, [msg |-> "m", from |-> f, to |-> t])
Spec == Init /\ [][Next]_<<s, errors>>
\* the one-pass points are those of LineTable; distinct places are shown as distinct places; order is kept
Offs == UNION {{errors[i].from, errors[i].to} : i \in 1..Len(errors)}
WalkIsTable == Walk(s, Offs) = SelectSeq(Points(s), LAMBDA p : p.off \in Offs)
Shown(utf8) == LET w == Walk(s, Offs) IN [i \in 1..Len(errors) |-> Published(DiagnosticsOf(errors)[i], w, utf8)]
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Faithful == \A utf8 \in BOOLEAN : LET p == Shown(utf8) IN
  /\ Len(p) = Len(errors)
  /\ \A i \in 1..Len(p) : Leq(p[i].start, p[i].end) /\ \A j \in 1..Len(p) :
       /\ (p[i].start = p[j].start) = (errors[i].from = errors[j].from)
       /\ i < j => Leq(p[i].start, p[j].start)
=============================================================================
