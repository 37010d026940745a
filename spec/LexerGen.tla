------------------------------ MODULE LexerGen ------------------------------
(* All texts made of up to MaxPieces of Pieces, with their tokens. *)
EXTENDS Lexer, Json
CONSTANTS Pieces, MaxPieces
VARIABLES s, n
Init == s = <<>> /\ n = 0
Next == n < MaxPieces /\ n' = n + 1 /\ \E p \in Pieces : s' = s \o p
Spec == Init /\ [][Next]_<<s, n>>
(* the scanner takes the longest word, and it is of one class *)
Law == LET go[i \in 1..Len(s) + 1] == IF i = Len(s) + 1 THEN TRUE
                                      ELSE LET t == TokenAt(s, i) IN t = Longest(s, i) /\ OneClass(s, i) /\ go[i + t.n]
       IN go[1]
Emit == PrintT(ToJson([s |-> s, tokens |-> Tokens(s)]))

Ch(set) == {<<c>> : c \in set}
\* & | = ! < > : . /
Ops1 == Ch({38, 124, 61, 33, 60, 62, 58, 46, 47})
\* every punctuation and other characters
Ops2 == Ch({33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 58, 59, 60, 61, 62, 63, 64, 91, 92, 93, 94, 96, 123, 124, 125, 126,
            97, 48, 32, 10, 13, 9, 0, 95, 233, 26085, 128512, 160, 8232})
\* 0 1 9 0x a F g x u8 u64 u128 u 8 _ .
Numbers == {<<48>>, <<49>>, <<57>>, <<48, 120>>, <<97>>, <<70>>, <<103>>, <<120>>, U8, U64, U128, <<117>>, <<56>>, <<95>>, <<46>>}
\* x b " \ a LF CR e-acute
Strings == Ch({120, 98, 34, 92, 97, 10, 13, 233})
\* & m u t _ space mut
Amps == Ch({38, 109, 117, 116, 95, 32}) \cup {<<109, 117, 116>>}
\* / LF a space CR e-acute
Comments == Ch({47, 10, 97, 32, 13, 233})
\* keywords, and what may stand around them
Words == {Keyword[i].w : i \in 1..Len(Keyword)} \cup {Take(Keyword[i].w, Len(Keyword[i].w) - 1) : i \in 1..Len(Keyword)}
         \cup Ch({97, 95, 49, 32, 65, 233, 38, 34, 46, 115})
\* every ASCII character
Ascii == Ch(0..127)
\* numbers of this language and of others, and what may stand around them
Suffixes == {<<48>>, <<49, 55>>, <<48, 120>>, <<48, 88>>, <<48, 98>>, <<48, 111>>, <<48, 98, 49, 48>>, <<48, 120, 70>>, <<49, 101>>, <<117>>, <<105>>, <<117,
    56>>, <<117, 49>>, <<117, 49, 54>>, <<117, 49, 50>>, <<117, 51, 50>>, <<117, 54>>, <<117, 50, 53, 54>>, <<117, 49, 50, 56>>, <<85, 56>>, <<85, 54,
    52>>, <<117, 48, 56>>, <<105, 56>>, <<105, 54, 52>>, <<105, 49, 50, 56>>, <<102, 51, 50>>, <<117, 115, 105, 122, 101>>, <<105, 115, 105, 122, 101>>,
    <<95>>, <<101, 53>>, <<46>>, <<45>>, <<108>>, <<104>>, <<110>>, <<120, 34>>, <<98, 34>>}
\* words of other languages, next to each other and to those of this one
Foreign == {<<48>>, <<49, 95, 48>>, <<97>>, <<39>>, <<39, 97, 39>>, <<39, 97>>, <<34, 97, 34>>, <<34>>, <<114, 34>>, <<114, 35, 34>>, <<88, 34>>, <<66, 34>>,
    <<120, 98, 34>>, <<120, 39>>, <<98, 39>>, <<47, 42>>, <<42, 47>>, <<47, 47, 47>>, <<47, 47, 33>>, <<35, 33>>, <<45, 45>>, <<43, 43>>, <<45, 62>>,
    <<61, 62>>, <<60, 45>>, <<43, 61>>, <<45, 61>>, <<124, 61>>, <<124, 124, 61>>, <<38, 61>>, <<38, 38, 61>>, <<38>>, <<109, 117, 116, 32>>, <<38, 109,
    117, 116>>, <<38, 109, 117, 116, 97, 98, 108, 101>>, <<60, 60, 60>>, <<60, 60, 61>>, <<62, 62, 61>>, <<62, 62, 62>>, <<60, 61>>, <<61, 61>>, <<61, 61,
    61>>, <<33, 61, 61>>, <<61, 61, 62>>, <<60, 61, 61>>, <<60, 61, 61, 62>>, <<61>>, <<60, 61, 62>>, <<62>>, <<124, 62>>, <<58, 58>>, <<58, 58, 60>>,
    <<58>>, <<46>>, <<46, 46>>, <<46, 46, 46>>, <<46, 46, 61>>, <<63>>, <<63, 63>>, <<36>>, <<64>>, <<35>>, <<92>>, <<126>>, <<96>>, <<94>>, <<13, 10>>,
    <<13>>, <<8232>>, <<133>>, <<12>>, <<11>>, <<160>>, <<102, 110>>, <<233>>, <<95, 95>>, <<101, 769>>}
=============================================================================
