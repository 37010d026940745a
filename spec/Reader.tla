------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Reading a program of the supported Move language token by token: a        *)
(* machine whose state is the stack of what is still expected.  It is stuck  *)
(* at the first token with which the text stops being the beginning of a     *)
(* program.  Its language is that of Grammar (GrammarGen checks that all of  *)
(* that is read) and some forms that are tolerated, each marked T below.     *)
(* Two tokens count only together with the one after them: the address of a  *)
(* module, and a number as a record field.                                   *)
(* Tokens are the names of their kinds; "HEX" is a number that begins with   *)
(* 0x, the end of the text is "EOF".                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Operators == {"EQ", "LT", "GT", "PIPE", "CARET", "AMP", "PLUS", "MINUS", "STAR", "SLASH", "MOD"}
Prefixes == {"STAR", "BANG", "MINUS"}
Plain == {"INTEGER_NUMBER", "HEX", "TRUE_KW", "FALSE_KW", "BYTE_STRING"}
StartsExpr == Prefixes \cup Plain \cup {"IDENT", "ATSIGN", "L_PAREN", "L_BRACE"}
StartsPattern == {"IDENT", "MUT_KW", "L_PAREN"}
StartsType == {"IDENT", "AMP", "AMP_MUT"}
No == <<"no">>
If(c, body) == IF c THEN body ELSE No
\* a list: what an item begins with, the item, what follows an item, the end
List(t, starts, item, end) == IF t = end THEN <<>> ELSE If(t \in starts, item)
More(t, list, end) == IF t = end THEN <<>> ELSE If(t = "COMMA", <<"COMMA", list>>)

\* what the expectation n becomes when the next tokens are t and u
Predict(n, t, u) ==
  CASE n = "Tops" ->
         IF t = "EOF" THEN <<"EOF">>
         ELSE IF t = "SCRIPT_KW" THEN <<"SCRIPT_KW", "Content", "Tops">>
         ELSE IF t = "MODULE_KW" THEN <<"MODULE_KW", "Head", "Content", "Tops">>
         ELSE If(t = "ADDRESS_KW", <<"ADDRESS_KW", "Address", "L_BRACE", "Modules", "R_BRACE", "Tops">>)
    \* T: a semicolon instead; T: structs in a script
    [] n = "Content" -> IF t = "SEMICOLON" THEN <<"SEMICOLON">> ELSE If(t = "L_BRACE", <<"L_BRACE", "Items", "R_BRACE">>)
    [] n = "Head" -> IF t = "IDENT" THEN <<"IDENT", "HeadRest">> ELSE If(t = "HEX" /\ u = "COLON_COLON", <<"HEX", "COLON_COLON", "IDENT">>)
    [] n = "HeadRest" -> IF t = "COLON_COLON" THEN <<"COLON_COLON", "IDENT">> ELSE <<>>
    [] n = "Address" -> If(t \in {"IDENT", "HEX"}, <<t>>)
    \* T: these may have an address of their own
    [] n = "Modules" -> IF t = "R_BRACE" THEN <<>> ELSE If(t = "MODULE_KW", <<"MODULE_KW", "Head", "Content", "Modules">>)
    [] n = "Items" -> IF t = "R_BRACE" THEN <<>> ELSE IF t = "FUN_KW" THEN <<"Fun", "Items">> ELSE If(t = "STRUCT_KW", <<"Struct", "Items">>)
    [] n = "Fun" -> If(t = "FUN_KW", <<"FUN_KW", "IDENT", "L_PAREN", "Params", "R_PAREN", "Ret", "Block">>)
    [] n = "Ret" -> IF t = "L_BRACE" THEN <<>> ELSE If(t = "COLON", <<"COLON", "Type">>)
    [] n = "Params" -> List(t, {"IDENT"}, <<"IDENT", "COLON", "Type", "ParamRest">>, "R_PAREN")
    [] n = "ParamRest" -> More(t, "Params", "R_PAREN")
    [] n = "Struct" -> If(t = "STRUCT_KW", <<"STRUCT_KW", "IDENT", "Generics", "Body">>)
    [] n = "Generics" -> IF t = "LT" THEN <<"LT", "GenericMore", "GT">> ELSE If(t \in {"SEMICOLON", "L_BRACE"}, <<>>)
    \* T: no parameter at all; T: no bound after ":" or "+"
    [] n = "GenericMore" -> List(t, {"IDENT"}, <<"IDENT", "Bound", "GenericRest">>, "GT")
    [] n = "GenericRest" -> More(t, "GenericMore", "GT")
    [] n = "Bound" -> IF t = "COLON" THEN <<"COLON", "Bounds">> ELSE If(t \in {"COMMA", "GT"}, <<>>)
    [] n = "Bounds" -> IF t = "IDENT" THEN <<"IDENT", "BoundRest">> ELSE If(t \in {"COMMA", "GT"}, <<>>)
    [] n = "BoundRest" -> IF t = "PLUS" THEN <<"PLUS", "Bounds">> ELSE If(t \in {"COMMA", "GT"}, <<>>)
    [] n = "Body" -> IF t = "SEMICOLON" THEN <<"SEMICOLON">> ELSE If(t = "L_BRACE", <<"L_BRACE", "Decls", "R_BRACE">>)
    [] n = "Decls" -> List(t, {"IDENT"}, <<"IDENT", "COLON", "Type", "DeclRest">>, "R_BRACE")
    [] n = "DeclRest" -> More(t, "Decls", "R_BRACE")
    [] n = "Type" -> IF t = "IDENT" THEN <<"IDENT", "Path">> ELSE IF t = "AMP" THEN <<"AMP", "Mut", "Type">> ELSE If(t = "AMP_MUT", <<"AMP_MUT", "Type">>)
    [] n = "Mut" -> IF t = "MUT_KW" THEN <<"MUT_KW">> ELSE If(t \in StartsType, <<>>)
    [] n = "Path" -> IF t = "COLON_COLON" /\ u \notin {"STAR", "L_BRACE"} THEN <<"COLON_COLON", "IDENT", "Path">> ELSE <<>>
    [] n = "Block" -> If(t = "L_BRACE", <<"L_BRACE", "Stmts", "R_BRACE">>)
    [] n = "Stmts" -> IF t = "R_BRACE" THEN <<>>
                      ELSE IF t = "LET_KW" THEN <<"LET_KW", "Pattern", "LetType", "LetValue", "StmtEnd", "Stmts">>
                      ELSE If(t \in StartsExpr, <<"Expr", "StmtEnd", "Stmts">>)
    \* T: no semicolon between statements
    [] n = "StmtEnd" -> IF t = "SEMICOLON" THEN <<"SEMICOLON">> ELSE <<>>
    [] n = "LetType" -> IF t = "COLON" THEN <<"COLON", "Type">> ELSE <<>>
    [] n = "LetValue" -> IF t = "EQ" THEN <<"EQ", "Expr">> ELSE <<>>
    [] n = "Pattern" -> IF t = "IDENT" THEN <<"IDENT", "RecordPattern">> ELSE IF t = "MUT_KW" THEN <<"MUT_KW", "IDENT">>
                        ELSE If(t = "L_PAREN", <<"L_PAREN", "Patterns", "R_PAREN">>)
    [] n = "RecordPattern" -> IF t = "L_BRACE" THEN <<"L_BRACE", "PatFields", "R_BRACE">> ELSE <<>>
    [] n = "Patterns" -> List(t, StartsPattern, <<"Pattern", "PatternRest">>, "R_PAREN")
    [] n = "PatternRest" -> More(t, "Patterns", "R_PAREN")
    [] n = "PatFields" -> IF t = "MUT_KW" THEN <<"MUT_KW", "IDENT", "PatFieldRest">> ELSE List(t, {"IDENT"}, <<"IDENT", "PatFieldPattern", "PatFieldRest">>, "R_BRACE")
    [] n = "PatFieldPattern" -> IF t = "COLON" THEN <<"COLON", "Pattern">> ELSE If(t \in {"COMMA", "R_BRACE"}, <<>>)
    [] n = "PatFieldRest" -> More(t, "PatFields", "R_BRACE")
    [] n = "Expr" -> IF t \in Prefixes THEN <<t, "Expr1">> ELSE If(t \in StartsExpr, <<"Operand", "ExprRest">>)
    \* after a prefix operator
    [] n = "Expr1" -> IF t \in Prefixes THEN <<t, "Expr1">> ELSE If(t \in StartsExpr, <<"Operand", "ExprRest">>)
    [] n = "ExprRest" -> IF t \in Operators THEN <<t, "Expr">> ELSE <<>>
    [] n = "Operand" -> IF t = "IDENT" THEN <<"IDENT", "Path", "Record", "Postfix">> ELSE IF t \in Plain THEN <<t, "Postfix">>
                        ELSE IF t = "ATSIGN" THEN <<"ATSIGN", "Address", "Postfix">> ELSE IF t = "L_PAREN" THEN <<"L_PAREN", "Paren", "R_PAREN", "Postfix">>
                        ELSE If(t = "L_BRACE", <<"Block", "Postfix">>)
    \* T: several expressions
    [] n = "Paren" -> IF t = "R_PAREN" THEN <<>> ELSE If(t \in StartsExpr, <<"Expr", "Paren">>)
    [] n = "Record" -> IF t = "L_BRACE" THEN <<"L_BRACE", "Fields", "R_BRACE">> ELSE <<>>
    \* T: any expression that begins with a name or a number
    [] n = "Fields" -> IF t \in {"INTEGER_NUMBER", "HEX"} THEN If(u # "COLON", <<"Expr", "FieldRest">>)
                       ELSE List(t, {"IDENT"}, <<"IDENT", "FieldValue", "FieldRest">>, "R_BRACE")
    [] n = "FieldValue" -> IF t = "COLON" THEN <<"COLON", "Expr">> ELSE <<"Path", "Record", "Postfix", "ExprRest">>
    [] n = "FieldRest" -> More(t, "Fields", "R_BRACE")
    [] n = "Postfix" -> IF t = "L_PAREN" THEN <<"L_PAREN", "Args", "R_PAREN", "Postfix">> ELSE IF t = "DOT" THEN <<"DOT", "IDENT", "Postfix">> ELSE <<>>
    [] n = "Args" -> List(t, StartsExpr, <<"Expr", "ArgRest">>, "R_PAREN")
    [] n = "ArgRest" -> More(t, "Args", "R_PAREN")

Expectations == {"Tops", "Head", "HeadRest", "Address", "Modules", "Content", "Items", "Fun", "Ret", "Params", "ParamRest", "Struct", "Generics",
  "GenericRest", "GenericMore", "Bound", "Bounds", "BoundRest", "Body", "Decls", "DeclRest", "Type", "Mut", "Path", "Block", "Stmts", "StmtEnd", "LetType",
  "LetValue", "Pattern", "RecordPattern", "Patterns", "PatternRest", "PatFields", "PatFieldPattern", "PatFieldRest", "Expr", "Expr1", "ExprRest",
  "Operand", "Paren", "Record", "Fields", "FieldValue", "FieldRest", "Postfix", "Args", "ArgRest"}

\* reads the token t, when u comes after it: the new stack, or No
RECURSIVE Shift(_, _, _)
Shift(stack, t, u) ==
  IF stack = <<>> THEN No
  ELSE IF stack[1] \in Expectations
  THEN LET body == Predict(stack[1], t, u) IN IF body = No THEN No ELSE Shift(body \o Tail(stack), t, u)
  ELSE IF stack[1] = t THEN Tail(stack) ELSE No
Fresh == <<"Tops">>
At(tokens, i) == IF i \in 1..Len(tokens) THEN tokens[i] ELSE "EOF"
\* the number of tokens, with the end as the last, that are read before the machine is stuck
RECURSIVE ReadFrom(_, _, _)
ReadFrom(stack, tokens, i) ==
  IF i > Len(tokens) + 1 THEN Len(tokens) + 1
  ELSE LET next == Shift(stack, At(tokens, i), At(tokens, i + 1)) IN IF next = No THEN i - 1 ELSE ReadFrom(next, tokens, i + 1)
\* the longest beginning of the text with which it may be a program
Viable(tokens) == ReadFrom(Fresh, tokens, 1)
Program(tokens) == Viable(tokens) = Len(tokens) + 1
=============================================================================
