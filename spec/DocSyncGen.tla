----------------------------- MODULE DocSyncGen -----------------------------
(* All sequences of changes to small texts, in batches, as schedules for the real code. *)
EXTENDS DocSync, TLC, Json
CONSTANTS Starts, Texts, MaxEdits, Past   \* Past: also with positions past the ends of lines and of the text
VARIABLES s, u, hist
StartsDef == {<<>>, <<97>>, <<10>>, <<97, 10>>, <<10, 97>>, <<128512, 10, 97>>, <<97, 10, 10>>, <<97, 233, 10, 128512>>}
StartsFew == {<<>>, <<128512, 10, 97>>, <<97, 10>>}
StartsCr == {<<13>>, <<13, 10>>, <<97, 13, 10, 233>>, <<13, 13, 10, 10, 97, 13>>}
TextsCr == {<<>>, <<13>>, <<10, 98>>}
StartsPast == StartsDef \cup StartsCr
StartsPastFew == {<<97, 13, 10>>, <<128512>>}
TextsPast == {<<>>, <<98>>, <<13, 10>>}
TextsPastFew == {<<>>, <<13, 10>>}
TextsDef == {<<>>, <<10>>, <<98>>, <<128512, 10>>}
gvars == <<opened, held, s, u, hist>>
Places(x, utf8) == {<<LineOf(x, i), Col(x, i, utf8)>> : i \in 0..Len(x)}
  \cup {<<LastLine(x), Col(x, Len(x), utf8) + n>> : n \in IF MaxEdits = 1 THEN {1, 2, 1000000} ELSE {1}}
  \cup {<<LastLine(x) + 1, 0>>} \cup (IF MaxEdits = 1 THEN {<<LastLine(x) + 1, 1>>, <<2147483647, 2147483647>>} ELSE {})
GInit == DInit /\ s \in Starts /\ u \in BOOLEAN /\ hist = <<[s |-> s, utf8 |-> u]>>
GNext ==
  /\ Len(hist) <= MaxEdits
  /\ \E t \in Texts :
       \/ /\ s' = t /\ hist' = Append(hist, [range |-> <<>>, text |-> t, after |-> s'])
       \/ \E i \in 0..Len(s) : \E j \in i..Len(s) :
            /\ ~Past /\ ~InCRLF(s, i) /\ ~InCRLF(s, j)
            /\ s' = Replace(s, i, j, t)
            /\ hist' = Append(hist, [range |-> PosRange(s, i, j, u), text |-> t, after |-> s'])
       \/ \E p \in Places(s, u) : \E q \in Places(s, u) :
            /\ Past /\ NotAfter(p, q)
            /\ Exact(s, p[1], p[2], u) /\ Exact(s, q[1], q[2], u)
            /\ s' = CHOOSE x \in Apply(s, [range |-> p \o q, text |-> t, utf8 |-> u]) : TRUE
            /\ hist' = Append(hist, [range |-> p \o q, text |-> t, after |-> s'])
  /\ UNCHANGED <<dvars, u>>
GSpec == GInit /\ [][GNext]_gvars
Law == ByPosition(s) /\ (Past /\ Len(hist) = 1 => Monotonic(s))
Emit == Len(hist) = MaxEdits + 1 => PrintT(ToJson(hist))
=============================================================================
