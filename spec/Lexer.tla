------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* How a text is divided into tokens.  Mirrors crates/parser/src/lexer.rs   *)
(* and the keyword table of syntax_kind/generated.rs.  Texts are sequences  *)
(* of code points.  Defined twice: as a scanner (Tokens), and as the        *)
(* longest words of the token classes (Longest); LexerGen checks that they  *)
(* agree.                                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
LF == 10
CR == 13
Blank == {32, 10, 9}
Digit == 48..57
Hex == Digit \cup (97..102) \cup (65..70)
NameStart == (97..122) \cup (65..90) \cup {95}
NameChar == NameStart \cup Digit
Quote == 34
Backslash == 92
\* words as code points
U8 == <<117, 56>>
U64 == <<117, 54, 52>>
U128 == <<117, 49, 50, 56>>
Zx == <<48, 120>>
AmpMut == <<38, 109, 117, 116>>
Keyword ==
  << [w |-> <<115,116,114,117,99,116>>, k |-> "STRUCT_KW"], [w |-> <<115,99,114,105,112,116>>, k |-> "SCRIPT_KW"],
     [w |-> <<109,111,100,117,108,101>>, k |-> "MODULE_KW"], [w |-> <<99,111,110,115,116>>, k |-> "CONST_KW"],
     [w |-> <<117,115,101>>, k |-> "USE_KW"], [w |-> <<97,115>>, k |-> "AS_KW"], [w |-> <<108,101,116>>, k |-> "LET_KW"],
     [w |-> <<109,117,116>>, k |-> "MUT_KW"], [w |-> <<114,101,116,117,114,110>>, k |-> "RETURN_KW"],
     [w |-> <<102,117,110>>, k |-> "FUN_KW"], [w |-> <<116,114,117,101>>, k |-> "TRUE_KW"],
     [w |-> <<102,97,108,115,101>>, k |-> "FALSE_KW"], [w |-> <<109,111,118,101>>, k |-> "MOVE_KW"],
     [w |-> <<119,104,105,108,101>>, k |-> "WHILE_KW"], [w |-> <<105,102>>, k |-> "IF_KW"],
     [w |-> <<101,108,115,101>>, k |-> "ELSE_KW"], [w |-> <<98,114,101,97,107>>, k |-> "BREAK_KW"],
     [w |-> <<99,111,110,116,105,110,117,101>>, k |-> "CONTINUE_KW"],
     [w |-> <<97,100,100,114,101,115,115>>, k |-> "ADDRESS_KW"] >>
Operator ==
  << [w |-> <<61,61,62>>, k |-> "EQ_EQ_GT"], [w |-> <<61,61>>, k |-> "EQ_EQ"], [w |-> <<61>>, k |-> "EQ"],
     [w |-> <<60,61,61,62>>, k |-> "LT_EQ_EQ_GT"], [w |-> <<60,61>>, k |-> "LT_EQ"], [w |-> <<60,60>>, k |-> "LT_LT"],
     [w |-> <<60>>, k |-> "LT"], [w |-> <<62,61>>, k |-> "GT_EQ"], [w |-> <<62,62>>, k |-> "GT_GT"], [w |-> <<62>>, k |-> "GT"],
     [w |-> <<33,61>>, k |-> "BANG_EQ"], [w |-> <<33>>, k |-> "BANG"], [w |-> <<38,38>>, k |-> "AMP_AMP"], [w |-> <<38>>, k |-> "AMP"],
     [w |-> <<124,124>>, k |-> "PIPE_PIPE"], [w |-> <<124>>, k |-> "PIPE"], [w |-> <<58,58>>, k |-> "COLON_COLON"],
     [w |-> <<58>>, k |-> "COLON"], [w |-> <<46,46>>, k |-> "DOTDOT"], [w |-> <<46>>, k |-> "DOT"], [w |-> <<37>>, k |-> "MOD"],
     [w |-> <<40>>, k |-> "L_PAREN"], [w |-> <<41>>, k |-> "R_PAREN"], [w |-> <<91>>, k |-> "L_BRACK"], [w |-> <<93>>, k |-> "R_BRACK"],
     [w |-> <<42>>, k |-> "STAR"], [w |-> <<43>>, k |-> "PLUS"], [w |-> <<44>>, k |-> "COMMA"], [w |-> <<45>>, k |-> "MINUS"],
     [w |-> <<47>>, k |-> "SLASH"], [w |-> <<59>>, k |-> "SEMICOLON"], [w |-> <<94>>, k |-> "CARET"], [w |-> <<123>>, k |-> "L_BRACE"],
     [w |-> <<125>>, k |-> "R_BRACE"], [w |-> <<35>>, k |-> "NUMSIGN"], [w |-> <<64>>, k |-> "ATSIGN"] >>

---------------------------------------------------------------------------
(* the scanner *)
StartsAt(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
RECURSIVE Run(_, _, _)
Run(s, i, set) == IF i <= Len(s) /\ s[i] \in set THEN 1 + Run(s, i + 1, set) ELSE 0
RECURSIVE LineEnd(_, _)     \* the line feed at or after i, or the end
LineEnd(s, i) == IF i > Len(s) \/ s[i] = LF THEN i ELSE LineEnd(s, i + 1)
Suffix(s, i) == IF StartsAt(s, i, U8) THEN 2 ELSE IF StartsAt(s, i, U64) THEN 3 ELSE IF StartsAt(s, i, U128) THEN 4 ELSE 0
\* the closing quote of a byte string whose body begins at i, or 0 if there is none before the end e of the line
RECURSIVE Closing(_, _, _)
Closing(s, i, e) == IF i >= e THEN 0 ELSE IF s[i] = Quote THEN i ELSE IF s[i] = Backslash THEN Closing(s, i + 2, e) ELSE Closing(s, i + 1, e)
Word(table, w) == {n \in 1..Len(table) : table[n].w = w}
Number(s, i) ==
  IF StartsAt(s, i, Zx)
  THEN LET h == Run(s, i + 2, Hex) IN LET n == h + Suffix(s, i + 2 + h) IN IF n = 0 THEN 1 ELSE 2 + n
  ELSE LET d == Run(s, i, Digit) IN d + Suffix(s, i + d)
\* a byte string: its length, and whether it ends
Bytes_(s, i) ==
  LET lf == LineEnd(s, i)
      e == IF lf <= Len(s) /\ s[lf - 1] = CR /\ lf - 1 > i + 1 THEN lf - 1 ELSE lf
      q == Closing(s, i + 2, e)
  IN IF q # 0 THEN [k |-> "BYTE_STRING", n |-> q - i + 1] ELSE [k |-> "ERROR", n |-> e - i]
Op(s, i) == LET fits == {n \in 1..Len(Operator) : Operator[n].w[1] = s[i] /\ StartsAt(s, i, Operator[n].w)}
            IN IF fits = {} THEN [k |-> "ERROR", n |-> 1]
               ELSE LET b == CHOOSE n \in fits : \A m \in fits : Len(Operator[m].w) <= Len(Operator[n].w)
                    IN [k |-> Operator[b].k, n |-> Len(Operator[b].w)]
TokenAt(s, i) ==
  LET c == s[i] IN
  IF c \in Blank THEN [k |-> "WHITESPACE", n |-> Run(s, i, Blank)]
  ELSE IF StartsAt(s, i, <<47, 47>>) THEN
    LET e == LineEnd(s, i) IN [k |-> "COMMENT", n |-> (IF e > Len(s) THEN e - i ELSE e - i + 1)]
  ELSE IF c \in Digit THEN [k |-> "INTEGER_NUMBER", n |-> Number(s, i)]
  ELSE IF c \in {120, 98} /\ i < Len(s) /\ s[i + 1] = Quote THEN Bytes_(s, i)
  ELSE IF c \in NameStart THEN
    LET n == Run(s, i, NameChar) IN LET kw == Word(Keyword, SubSeq(s, i, i + n - 1))
    IN [k |-> (IF kw = {} THEN "IDENT" ELSE Keyword[CHOOSE x \in kw : TRUE].k), n |-> n]
  ELSE IF StartsAt(s, i, AmpMut) /\ ~(i + 4 <= Len(s) /\ s[i + 4] \in NameChar) THEN [k |-> "AMP_MUT", n |-> 4]
  ELSE Op(s, i)
RECURSIVE TokensFrom(_, _)
TokensFrom(s, i) == IF i > Len(s) THEN <<>> ELSE LET t == TokenAt(s, i) IN << <<t.k, t.n>> >> \o TokensFrom(s, i + t.n)
Tokens(s) == TokensFrom(s, 1)
\* what the parser makes of a leaf: a hexadecimal number may be an address there
SameLeaf(s, i, t, l) == t[2] = l[2] /\ (t[1] = l[1] \/ (l[1] = "DIEM_ADDRESS" /\ t[1] = "INTEGER_NUMBER" /\ StartsAt(s, i, Zx)))
RECURSIVE LeavesFrom(_, _, _, _)
LeavesFrom(s, i, leaves, j) ==
  IF i > Len(s) THEN j > Len(leaves)
  ELSE j <= Len(leaves) /\ LET t == TokenAt(s, i) IN SameLeaf(s, i, <<t.k, t.n>>, leaves[j]) /\ LeavesFrom(s, i + t.n, leaves, j + 1)
Leaves(s, leaves) == LeavesFrom(s, 1, leaves, 1)

---------------------------------------------------------------------------
(* the classes: whether a word w, followed by the rest r of the text, is a token *)
All(w, set) == \A i \in 1..Len(w) : w[i] \in set
Drop(w, n) == SubSeq(w, n + 1, Len(w))
Take(w, n) == SubSeq(w, 1, n)
Suffixed(w, set) == \E n \in 0..Len(w) : All(Take(w, n), set) /\ Drop(w, n) \in {<<>>, U8, U64, U128}
\* characters and escapes, without line feeds and lone quotes
RECURSIVE Body(_)
Body(w) == \/ w = <<>>
           \/ w[1] \notin {Quote, Backslash, LF} /\ Body(Drop(w, 1))
           \/ Len(w) >= 2 /\ w[1] = Backslash /\ w[2] # LF /\ Body(Drop(w, 2))
ByteString(w) == Len(w) >= 3 /\ w[1] \in {120, 98} /\ w[2] = Quote /\ w[Len(w)] = Quote /\ Body(SubSeq(w, 3, Len(w) - 1))
OpenString(w, r) ==
  /\ Len(w) >= 2 /\ w[1] \in {120, 98} /\ w[2] = Quote /\ ~ \E i \in 1..Len(w) : w[i] = LF
  /\ ~ \E n \in 3..Len(w) : ByteString(Take(w, n))
  /\ ~ (r # <<>> /\ r[1] = LF /\ Len(w) > 2 /\ w[Len(w)] = CR)
Is(k, w, r) ==
  CASE k = "WHITESPACE" -> w # <<>> /\ All(w, Blank)
    [] k = "COMMENT" -> Len(w) >= 2 /\ Take(w, 2) = <<47, 47>> /\ \A i \in 1..Len(w) - 1 : w[i] # LF
    [] k = "INTEGER_NUMBER" -> \/ w # <<>> /\ w[1] \in Digit /\ Suffixed(w, Digit)
                               \/ Len(w) > 2 /\ Take(w, 2) = Zx /\ Suffixed(Drop(w, 2), Hex)
    [] k = "BYTE_STRING" -> ByteString(w)
    [] k = "NAME" -> w # <<>> /\ w[1] \in NameStart /\ All(w, NameChar) /\ ~ (Len(w) = 1 /\ w[1] \in {120, 98} /\ r # <<>> /\ r[1] = Quote)
    [] k = "OPEN" -> OpenString(w, r)
    [] k = "AMP_MUT" -> w = AmpMut /\ ~ (r # <<>> /\ r[1] \in NameChar)
    [] k = "OPERATOR" -> Word(Operator, w) # {}
Classes == {"WHITESPACE", "COMMENT", "INTEGER_NUMBER", "BYTE_STRING", "NAME", "OPEN", "AMP_MUT", "OPERATOR"}
Kind(k, w) == CASE k = "NAME" -> LET kw == Word(Keyword, w) IN IF kw = {} THEN "IDENT" ELSE Keyword[CHOOSE x \in kw : TRUE].k
                [] k = "OPERATOR" -> Operator[CHOOSE n \in Word(Operator, w) : TRUE].k
                [] k = "OPEN" -> "ERROR"
                [] OTHER -> k
Longest(s, i) ==
  LET word(n) == SubSeq(s, i, i + n - 1)
      fits == {<<k, n>> \in Classes \X (1..Len(s) - i + 1) : Is(k, word(n), SubSeq(s, i + n, Len(s)))}
  IN IF fits = {} THEN [k |-> "ERROR", n |-> 1]
     ELSE LET b == CHOOSE f \in fits : \A g \in fits : g[2] <= f[2] IN [k |-> Kind(b[1], word(b[2])), n |-> b[2]]
\* the longest word is of one class only
OneClass(s, i) ==
  LET word(n) == SubSeq(s, i, i + n - 1)
      fits == {<<k, n>> \in Classes \X (1..Len(s) - i + 1) : Is(k, word(n), SubSeq(s, i + n, Len(s)))}
      best == {f \in fits : \A g \in fits : g[2] <= f[2]}
  IN Cardinality(best) <= 1
=============================================================================
