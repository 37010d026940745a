---------------------------- MODULE Diagnostics -----------------------------
(***************************************************************************)
(* From syntax errors to what the editor is shown.  Mirrors                 *)
(* crates/ide_diagnostics/src/lib.rs, handlers.rs and to_proto.rs.          *)
(* An error is [msg, from, to] with byte offsets.                           *)
(***************************************************************************)
EXTENDS LineTable, SequencesExt
Limit == 128
First(errors) == IF Len(errors) <= Limit THEN errors ELSE SubSeq(errors, 1, Limit)
Diagnostic(e) == [msg |-> "Syntax Error: " \o e.msg, from |-> e.from, to |-> e.to, severity |-> "error", code |-> "syntax-error"]
DiagnosticsOf(errors) == [i \in 1..Len(First(errors)) |-> Diagnostic(errors[i])]

\* every boundary of the text, as in LineTable, in one pass
Step(p, c) == [off |-> p.off + Bytes(c), line |-> IF c = LF THEN p.line + 1 ELSE p.line,
               c8 |-> IF c = LF THEN 0 ELSE p.c8 + Bytes(c), c16 |-> IF c = LF THEN 0 ELSE p.c16 + Units(c)]
Origin == [off |-> 0, line |-> 0, c8 |-> 0, c16 |-> 0]
\* the points at the offsets asked for (a set), as a sequence
Walk(s, wanted) ==
  LET Add(pts, p) == IF p.off \in wanted THEN Append(pts, p) ELSE pts
      Fold(acc, c) == LET p == Step(acc.p, c) IN [p |-> p, pts |-> Add(acc.pts, p)]
  IN FoldLeft(Fold, [p |-> Origin, pts |-> Add(<<>>, Origin)], s).pts
At(points, off) == points[CHOOSE i \in 1..Len(points) : points[i].off = off]
Published(d, points, utf8) ==
  LET pos(o) == LET p == At(points, o) IN <<p.line, IF utf8 THEN p.c8 ELSE p.c16>>
  IN [msg |-> d.msg, start |-> pos(d.from), end |-> pos(d.to), severity |-> 1, code |-> d.code, source |-> "move-language-server",
      tags |-> <<>>, related |-> 0]

Shift(errors, n) == [i \in 1..Len(errors) |-> [msg |-> errors[i].msg, from |-> errors[i].from + n, to |-> errors[i].to + n]]
(* laws (P18) *)
InText(errors, n) == \A i \in 1..Len(errors) : errors[i].from <= errors[i].to /\ errors[i].to <= n
InOrder(errors) == \A i \in 1..Len(errors) - 1 : errors[i].from <= errors[i + 1].from
=============================================================================
