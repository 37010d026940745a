------------------------------- MODULE DocSync ------------------------------
(***************************************************************************)
(* The server's copy of the editor's documents.  Mirrors the handling of    *)
(* didOpen, didChange and didClose in main_loop.rs, and                     *)
(* apply_document_changes in lsp_utils.rs.                                  *)
(* A change is [range, text, utf8]: range is <<>> (the whole text) or       *)
(* <<line, column, line, column>>; the columns count bytes if that was      *)
(* negotiated (utf8), and UTF-16 units otherwise.  A position past the last *)
(* line, or past the last column of it, means the end of the text.  A       *)
(* column past the end of another line means the end of that line: before   *)
(* the line break by the protocol, after it by the server's own test; the   *)
(* specification allows both.                                               *)
(***************************************************************************)
EXTENDS LineTable
CONSTANT Docs
VARIABLES opened, held   \* set of open documents;  held[d]: <<>> or <<text>>
dvars == <<opened, held>>

LastLine(s) == LineOf(s, Len(s))
InCRLF(s, i) == i > 0 /\ i < Len(s) /\ s[i] = CR /\ s[i + 1] = LF
Col(s, i, utf8) == IF utf8 THEN Col8(s, i) ELSE Col16(s, i)
OnLine(s, line) == {i \in 0..Len(s) : LineOf(s, i) = line}
BeforeFeed(s, line) == CHOOSE i \in OnLine(s, line) : \A j \in OnLine(s, line) : j <= i
EndOf(s, line) == LET f == BeforeFeed(s, line) IN IF InCRLF(s, f) THEN f - 1 ELSE f
\* the boundaries that may be meant; none inside of a character
Meant(s, line, col, utf8) ==
  IF line > LastLine(s) THEN {Len(s)}
  ELSE LET e == EndOf(s, line) IN
       IF col <= Col(s, e, utf8) THEN {i \in OnLine(s, line) : i <= e /\ Col(s, i, utf8) = col}
       ELSE IF line = LastLine(s) THEN {Len(s)}
       ELSE e..(BeforeFeed(s, line) + 1)
Exact(s, line, col, utf8) == Cardinality(Meant(s, line, col, utf8)) = 1
Replace(s, i, j, t) == SubSeq(s, 1, i) \o t \o SubSeq(s, j + 1, Len(s))
\* the texts there may be after a change
Apply(s, e) ==
  IF e.range = <<>> THEN {e.text}
  ELSE {Replace(s, i, j, e.text) : <<i, j>> \in
         {p \in Meant(s, e.range[1], e.range[2], e.utf8) \X Meant(s, e.range[3], e.range[4], e.utf8) : p[1] <= p[2]}}
RECURSIVE ApplyAll(_, _)
ApplyAll(texts, es) == IF es = <<>> THEN texts ELSE ApplyAll(UNION {Apply(s, es[1]) : s \in texts}, Tail(es))

DInit == opened = {} /\ held = [d \in Docs |-> <<>>]
DOpen(d, t) == opened' = opened \cup {d} /\ held' = [held EXCEPT ![d] = <<t>>]
DChange(d, es) ==
  /\ IF d \in opened THEN \E t \in ApplyAll({held[d][1]}, es) : held' = [held EXCEPT ![d] = <<t>>] ELSE held' = held
  /\ UNCHANGED opened
\* what is held for a document that is not open does not matter, but it does not change any more
DClose(d, keep) ==
  /\ opened' = opened \ {d}
  /\ held' = IF d \in opened /\ ~keep THEN [held EXCEPT ![d] = <<>>] ELSE held
DForeign == UNCHANGED dvars

\* the range of a change from boundary i to j, in positions
PosRange(s, i, j, utf8) == <<LineOf(s, i), Col(s, i, utf8), LineOf(s, j), Col(s, j, utf8)>>
(* laws *)
ByPosition(s) == \A u \in BOOLEAN : \A i \in 0..Len(s) : \A j \in i..Len(s) : InCRLF(s, i) \/ InCRLF(s, j) \/
  Apply(s, [range |-> PosRange(s, i, j, u), text |-> <<7>>, utf8 |-> u]) = {Replace(s, i, j, <<7>>)}
\* something is meant by every position that is not inside of a character; later ones do not mean earlier places
Positions(s) == {<<l, c>> : l \in 0..(LastLine(s) + 2), c \in 0..(ByteLen(s) + 2)}
NotAfter(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
Monotonic(s) == \A u \in BOOLEAN : \A p \in Positions(s) :
  LET P == Meant(s, p[1], p[2], u) IN
  /\ P = {} => \E i \in OnLine(s, p[1]) : Col(s, i, u) > p[2]
  /\ \A q \in Positions(s) : LET Q == Meant(s, q[1], q[2], u) IN
       P # {} /\ Q # {} /\ NotAfter(p, q) => \A i \in P : \E j \in Q : i <= j
=============================================================================
