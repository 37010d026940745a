----------------------------- MODULE ReaderGen ------------------------------
(***************************************************************************)
(* Ways through the machine of Reader: to every (topmost part of a) stack,   *)
(* then with every token, then as short as possible to the end.              *)
(***************************************************************************)
EXTENDS Reader, TLC, Json
CONSTANTS Kinds, MaxLen, Top
VARIABLES tokens, stack     \* the stack before the last of the tokens, which waits for the one after it
vars == <<tokens, stack>>
Last == tokens[Len(tokens)]
Init == stack = Fresh /\ tokens \in {<<t>> : t \in Kinds}
Next == /\ Len(tokens) < MaxLen
        /\ \E u \in Kinds : LET next == Shift(stack, Last, u) IN next # No /\ stack' = next /\ tokens' = Append(tokens, u)
Spec == Init /\ [][Next]_vars
View == <<SubSeq(stack, 1, IF Len(stack) < Top THEN Len(stack) ELSE Top), Last>>

Shortest(n) ==
  CASE n \in {"Head", "Address", "Type", "Pattern", "Expr", "Expr1", "Operand"} -> <<"IDENT">>
    [] n \in {"Content", "Body"} -> <<"SEMICOLON">>
    [] n = "Block" -> <<"L_BRACE", "R_BRACE">>
    [] n = "Fun" -> <<"FUN_KW", "IDENT", "L_PAREN", "R_PAREN", "L_BRACE", "R_BRACE">>
    [] n = "Struct" -> <<"STRUCT_KW", "IDENT", "SEMICOLON">>
    [] n \in Expectations -> <<>>
    [] n = "EOF" -> <<>>
    [] OTHER -> <<n>>
RECURSIVE Completion(_)
Completion(s) == IF s = <<>> THEN <<>> ELSE Shortest(s[1]) \o Completion(Tail(s))
\* what the last token may be followed by, to be taken as it stands here
Follow == {u \in Kinds \cup {"EOF"} : Shift(stack, Last, u) # No}
Finished == IF Follow = {} THEN {}
            ELSE {tokens \o Completion(Shift(stack, Last, u)) : u \in {CHOOSE u \in Follow : TRUE}}
\* laws: what is on the way is the beginning of a program, and finishing makes one
Law == /\ Viable(SubSeq(tokens, 1, Len(tokens) - 1)) >= Len(tokens) - 2
       /\ \A w \in Finished : LET c == Viable(w) IN c = Len(w) + 1 \/ c >= Len(tokens) - 1
\* A token (with what follows it) out of place, in place of another: what would follow, had it been
\* the right one, a text for each place to which the right ones lead.
Ahead == Kinds \cup {"EOF"}
Rest(s, u) == IF \E v \in Ahead : Shift(s, u, v) # No THEN Shift(s, u, CHOOSE v \in Ahead : Shift(s, u, v) # No) ELSE No
Replaced ==
  LET ways == {[to |-> Shift(stack, e, u), u |-> u] : e \in Kinds, u \in Kinds \ Follow}
      next == {[rest |-> Rest(w.to, w.u), u |-> w.u] : w \in {w \in ways : w.to # No}}
      rests == {w.rest : w \in next} \ {No}
  IN {LET w == CHOOSE w \in next : w.rest = r IN tokens \o <<w.u>> \o Completion(r) : r \in rests}
Few == {tokens, tokens \o Completion(stack)} \cup Finished
Texts == Few \cup Replaced
EmitFew == \A w \in Few : PrintT(ToJson([tokens |-> w, viable |-> Viable(w)]))
Emit == \A w \in Texts : PrintT(ToJson([tokens |-> w, viable |-> Viable(w)]))
=============================================================================
