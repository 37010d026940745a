------------------------------- MODULE EditRuns -----------------------------
(***************************************************************************)
(* DocSync's changes of texts that are long, or have long lines: texts are  *)
(* runs, the beginning and end of a change are places (see LineRuns).       *)
(* EditRunsGen checks that the two agree.                                   *)
(***************************************************************************)
EXTENDS LineRuns, Runs
Head1(t, p) == SubSeq(t, 1, p.r - 1) \o (IF p.r > Len(t) THEN <<>> ELSE <<<<t[p.r][1], p.m>>>>)
Tail1(t, p) == IF p.r > Len(t) THEN <<>> ELSE <<<<t[p.r][1], t[p.r][2] - p.m>>>> \o SubSeq(t, p.r + 1, Len(t))
PlaceRange(t, p, q, utf8) == <<Line(t, p), IF utf8 THEN Col8(t, p) ELSE Col16(t, p), Line(t, q), IF utf8 THEN Col8(t, q) ELSE Col16(t, q)>>
\* a change: [p, q, new]
After(t, e) == Merge(Head1(t, e.p) \o e.new \o Tail1(t, e.q))
RECURSIVE Texts(_, _)
Texts(t, es) == IF es = <<>> THEN <<t>> ELSE <<t>> \o Texts(After(t, es[1]), Tail(es))
=============================================================================
