---------------------------- MODULE ReaderCases -----------------------------
(* Texts, as the kinds of their tokens, and the errors reported in them, as the number of tokens before *)
(* each: there are errors exactly in what is no program, and none before the place where it stops being *)
(* the beginning of one.                                                                               *)
EXTENDS Reader, Cases
Verdict(c) ==
  LET n == Viable(c.tokens)
  IN IF n = Len(c.tokens) + 1 THEN c.errors = <<>>
     ELSE c.errors # <<>> /\ c.errors[1] = n
Judge == Verdict(Cases[k]) \/ PrintT(ToJson([bad |-> k, viable |-> Viable(Cases[k].tokens), of |-> Len(Cases[k].tokens)]))
=============================================================================
