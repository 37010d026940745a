----------------------------- MODULE TreeCases ------------------------------
(* Recorded [s, events, errors, same]. *)
EXTENDS Tree, Cases
Good(c) == Faithful(c.s, c.events) /\ ErrorsInText(c.s, c.errors) /\ c.same
Judge == Good(Cases[k]) \/ PrintT(ToJson([bad |-> k]))
=============================================================================
