------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Layout: what stands between the tokens of a program (P16).  A text is    *)
(* laid out from tokens by putting gaps - blanks, line ends, comments -     *)
(* around them such that reading the text gives the same tokens again.      *)
(* The skeleton of a tree is the tree without the gaps; the place of an     *)
(* error is the number of tokens before it.                                 *)
(***************************************************************************)
EXTENDS Lexer, SequencesExt
Gap == {"WHITESPACE", "COMMENT"}
\* the tokens of a text that are not gaps, as words
Words_(s) == LET step(m, t) == [i |-> m.i + t[2], ws |-> IF t[1] \in Gap THEN m.ws ELSE Append(m.ws, SubSeq(s, m.i, m.i + t[2] - 1))]
             IN FoldLeft(step, [i |-> 1, ws |-> <<>>], Tokens(s)).ws
\* a recorded walk (see Tree) without the gaps
Skeleton(events) == LET f(acc, ev) == IF ev.e = "l" /\ ev.k \in Gap THEN acc
                                      ELSE Append(acc, [e |-> ev.e, k |-> ev.k, t |-> ev.t])
                    IN FoldLeft(f, <<>>, events)
Ends(events) == LET f(acc, ev) == IF ev.e = "l" /\ ev.k \notin Gap THEN Append(acc, ev.to) ELSE acc IN FoldLeft(f, <<>>, events)
Places(events, errors) ==
  LET ends == Ends(events) IN
  [i \in 1..Len(errors) |-> [msg |-> errors[i].msg, after |-> Cardinality({j \in 1..Len(ends) : ends[j] <= errors[i].from})]]
Meaning(v) == <<Skeleton(v.events), Places(v.events, v.errors)>>
=============================================================================
