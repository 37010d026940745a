----------------------------- MODULE LexerCases -----------------------------
(* Recorded [s, leaves]: the leaves of the syntax tree are the tokens. *)
EXTENDS Lexer, Cases
Judge == Leaves(Cases[k].s, Cases[k].leaves) \/ PrintT(ToJson([bad |-> k]))
=============================================================================
