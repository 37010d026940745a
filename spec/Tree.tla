-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* A syntax tree over a text, as it is walked from left to right: events    *)
(* [e, k, from, to, t]: "o" opens a node, "l" is a leaf with the text t,     *)
(* "c" closes the node.  A walk is a behaviour of the machine whose state is *)
(* the place reached in the text (in characters and in bytes) and the nodes  *)
(* that are open.  Mirrors syntax/src/parsing/text_tree_sink.rs and          *)
(* parser/src/event.rs (P14).                                                *)
(***************************************************************************)
EXTENDS Utf, SequencesExt
Start == [ok |-> TRUE, chars |-> 0, off |-> 0, open |-> <<>>, done |-> FALSE]
Stuck == [Start EXCEPT !.ok = FALSE]
Advance(s, m, ev) ==
  IF ~m.ok \/ m.done THEN Stuck
  ELSE IF ev.e = "o" THEN
    IF ev.from = m.off /\ ev.to >= ev.from /\ (m.open = <<>> => m.off = 0 /\ ev.k = "SOURCE_FILE")
       /\ (m.open # <<>> => ev.to <= m.open[Len(m.open)].to)
    THEN [m EXCEPT !.open = Append(m.open, [k |-> ev.k, from |-> ev.from, to |-> ev.to])] ELSE Stuck
  ELSE IF ev.e = "l" THEN
    LET n == Len(ev.t) IN
    IF /\ m.open # <<>> /\ n > 0 /\ ev.from = m.off /\ ev.to = m.off + ByteLen(ev.t)
       /\ m.chars + n <= Len(s) /\ SubSeq(s, m.chars + 1, m.chars + n) = ev.t
    THEN [m EXCEPT !.chars = m.chars + n, !.off = ev.to] ELSE Stuck
  ELSE IF m.open = <<>> THEN Stuck
  ELSE LET top == m.open[Len(m.open)] IN
    IF ev.k = top.k /\ ev.from = top.from /\ ev.to = top.to /\ m.off = top.to
    THEN [m EXCEPT !.open = SubSeq(m.open, 1, Len(m.open) - 1), !.done = (Len(m.open) = 1)] ELSE Stuck
Walk(s, events) == FoldLeft(LAMBDA m, ev : Advance(s, m, ev), Start, events)
\* the walk is complete, and has read the whole text
Faithful(s, events) == LET m == Walk(s, events) IN m.ok /\ m.done /\ m.chars = Len(s)

\* the offsets of the boundaries of the text
Boundaries(s) == LET f == FoldLeft(LAMBDA m, c : [off |-> m.off + Bytes(c), all |-> Append(m.all, m.off + Bytes(c))], [off |-> 0, all |-> <<0>>], s)
                 IN {f.all[i] : i \in 1..Len(f.all)}
ErrorsInText(s, errors) ==
  /\ LET b == Boundaries(s) IN \A i \in 1..Len(errors) : errors[i].from \in b /\ errors[i].to \in b /\ errors[i].from <= errors[i].to
  /\ \A i \in 1..Len(errors) - 1 : errors[i].from <= errors[i + 1].from
=============================================================================
