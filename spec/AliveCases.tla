----------------------------- MODULE AliveCases -----------------------------
(***************************************************************************)
(* What must be seen of a server that was given arbitrary documents (P07):   *)
(* recorded [asked, answered (ids in order), open, shown (documents), ended]. *)
(***************************************************************************)
EXTENDS Cases
ToSet(q) == {q[i] : i \in 1..Len(q)}
Alive(c) ==
  /\ ~c.ended
  /\ ToSet(c.answered) = ToSet(c.asked) /\ Len(c.answered) = Len(c.asked)
  /\ ToSet(c.open) \subseteq ToSet(c.shown)
Judge == Alive(Cases[k]) \/ PrintT(ToJson([bad |-> k]))
=============================================================================
