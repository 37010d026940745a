-------------------------- MODULE DiagnosticsCases --------------------------
(* Recorded: [s, utf8, errors, diags, shown] of one text; [runs, at, utf8, errors, diags, shown] of a long    *)
(* one, given as runs, with the places of its errors; [parts |-> <<[n, errors]>>, whole] of a text made of     *)
(* pieces that stand for themselves (n bytes long).                                                            *)
EXTENDS Diagnostics, Cases
Runs == INSTANCE LineRuns
Offsets(c) == {c.errors[i].from : i \in 1..Len(c.errors)} \cup {c.errors[i].to : i \in 1..Len(c.errors)}
AsPublished(c, points, length) ==
  LET ds == DiagnosticsOf(c.errors)
  IN /\ {points[i].off : i \in 1..Len(points)} = Offsets(c)          \* every error is at a boundary of the text
     /\ InOrder(c.errors) /\ InText(c.errors, length)
     /\ c.diags = ds
     /\ Len(c.shown) = Len(ds)
     /\ \A i \in 1..Len(ds) : c.shown[i] = Published(ds[i], points, c.utf8)
OneText(c) == AsPublished(c, Walk(c.s, Offsets(c)), ByteLen(c.s))
Place(p) == [r |-> p[1], m |-> p[2]]
LongText(c) == AsPublished(c, [i \in 1..Len(c.at) |-> Runs!Point(c.runs, Place(c.at[i]))], Runs!Offset(c.runs, Place(<<Len(c.runs) + 1, 0>>)))
RECURSIVE Sum(_, _)
Sum(parts, n) == IF parts = <<>> THEN <<>> ELSE Shift(parts[1].errors, n) \o Sum(Tail(parts), n + parts[1].n)
Pieces_(c) == c.whole = Sum(c.parts, 0)
Judge == LET c == Cases[k] IN (IF "parts" \in DOMAIN c THEN Pieces_(c) ELSE IF "runs" \in DOMAIN c THEN LongText(c) ELSE OneText(c)) \/ PrintT(ToJson([bad |-> k]))
=============================================================================
