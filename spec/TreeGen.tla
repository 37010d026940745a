------------------------------ MODULE TreeGen -------------------------------
(***************************************************************************)
(* The machine of Tree run freely: all walks over small texts.  Laws: it     *)
(* accepts exactly the walks whose leaves make up the text and whose nodes   *)
(* are those of a tree that spans it.                                        *)
(***************************************************************************)
EXTENDS Tree, TLC
CONSTANTS Texts, MaxEvents, MaxDepth
VARIABLES s, events
Kinds == {"SOURCE_FILE", "x"}
Offs == 0..ByteLen(s)
Event == [e : {"o", "c"}, k : Kinds, from : Offs, to : Offs, t : {<<>>}]
         \cup {[e |-> "l", k |-> "x", from |-> f, to |-> g, t |-> t] : f \in Offs, g \in Offs, t \in {SubSeq(s, i, j) : i \in 1..Len(s), j \in 0..Len(s)}}
Init == s \in Texts /\ events = <<>>
Next == Len(events) < MaxEvents /\ s' = s /\ \E ev \in Event : Walk(s, Append(events, ev)).ok /\ events' = Append(events, ev)
Spec == Init /\ [][Next]_<<s, events>>
Depths == [i \in 0..Len(events) |-> Cardinality({j \in 1..i : events[j].e = "o"}) - Cardinality({j \in 1..i : events[j].e = "c"})]
RECURSIVE Concat(_)
Concat(es) == IF es = <<>> THEN <<>> ELSE es[1].t \o Concat(Tail(es))
Law == LET m == Walk(s, events) IN
  /\ m.ok
  /\ Len(m.open) = Depths[Len(events)] /\ \A i \in 0..Len(events) : Depths[i] >= 0
  /\ Concat(events) = SubSeq(s, 1, m.chars) /\ m.off = ByteLen(SubSeq(s, 1, m.chars))
  /\ Faithful(s, events) =>
       /\ events[1].e = "o" /\ events[1].k = "SOURCE_FILE" /\ events[1].from = 0 /\ events[1].to = ByteLen(s)
       /\ Concat(events) = s
       \* siblings stand side by side, within their parent
       /\ \A i \in 1..Len(events) : events[i].e # "c" =>
            /\ i > 1 => \E p \in 1..(i - 1) : events[p].e = "o" /\ events[p].from <= events[i].from /\ events[i].to <= events[p].to
            /\ \A j \in 1..Len(events) : j > i /\ events[j].e # "c" =>
                 \/ events[i].to <= events[j].from \/ (events[i].from <= events[j].from /\ events[j].to <= events[i].to)
=============================================================================
