------------------------------ MODULE Grammar -------------------------------
(***************************************************************************)
(* The supported Move language, as a grammar whose derivations carry the    *)
(* tree: deriving a program writes the walk over its syntax tree (open       *)
(* node, token, close node).  Mirrors crates/parser/src/grammar.            *)
(*                                                                         *)
(* State: what was written, what is still to be derived.  A step expands the *)
(* first nonterminal in one of the ways the grammar has, as long as the      *)
(* program can still be finished within Size tokens.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Size,          \* how many tokens a program may have, besides those of its frame
          Goal,          \* what is derived, see Frames
          Names,         \* identifiers used
          Ops,           \* binary operators used
          Without        \* ways that are not used

---------------------------------------------------------------------------
(* symbols *)
O(k) == [s |-> "o", k |-> k, w |-> "", p |-> 0]
C(k) == [s |-> "c", k |-> k, w |-> "", p |-> 0]
T(k, w) == [s |-> "l", k |-> k, w |-> w, p |-> 0]
N(k) == [s |-> "n", k |-> k, w |-> "", p |-> 0]
E(p) == [s |-> "n", k |-> "Expr", w |-> "", p |-> p]
Node(k, body) == <<O(k)>> \o body \o <<C(k)>>
Id(n) == T("IDENT", n)
Punct == [x \in {"{", "}", "(", ")", ",", ";", ":", "::", ".", "<", ">", "+", "=", "&", "&mut", "@"} |->
  CASE x = "{" -> T("L_BRACE", x) [] x = "}" -> T("R_BRACE", x) [] x = "(" -> T("L_PAREN", x) [] x = ")" -> T("R_PAREN", x)
    [] x = "," -> T("COMMA", x) [] x = ";" -> T("SEMICOLON", x) [] x = ":" -> T("COLON", x) [] x = "::" -> T("COLON_COLON", x)
    [] x = "." -> T("DOT", x) [] x = "<" -> T("LT", x) [] x = ">" -> T("GT", x) [] x = "+" -> T("PLUS", x) [] x = "=" -> T("EQ", x)
    [] x = "&" -> T("AMP", x) [] x = "&mut" -> T("AMP_MUT", x) [] x = "@" -> T("ATSIGN", x)]
P(x) == Punct[x]
Kw(x) == CASE x = "fun" -> T("FUN_KW", x) [] x = "let" -> T("LET_KW", x) [] x = "mut" -> T("MUT_KW", x) [] x = "struct" -> T("STRUCT_KW", x)
           [] x = "script" -> T("SCRIPT_KW", x) [] x = "module" -> T("MODULE_KW", x) [] x = "address" -> T("ADDRESS_KW", x)

\* binary operators: how tightly they bind
Binary == << [w |-> "=", k |-> "EQ", p |-> 1], [w |-> "<", k |-> "LT", p |-> 5], [w |-> ">", k |-> "GT", p |-> 5],
             [w |-> "|", k |-> "PIPE", p |-> 6], [w |-> "^", k |-> "CARET", p |-> 7], [w |-> "&", k |-> "AMP", p |-> 8],
             [w |-> "+", k |-> "PLUS", p |-> 10], [w |-> "-", k |-> "MINUS", p |-> 10], [w |-> "*", k |-> "STAR", p |-> 11],
             [w |-> "/", k |-> "SLASH", p |-> 11], [w |-> "%", k |-> "MOD", p |-> 11] >>
Unary == << T("STAR", "*"), T("BANG", "!"), T("MINUS", "-") >>
Tightest == 255
Literals == << T("INTEGER_NUMBER", "1"), T("INTEGER_NUMBER", "42u8"), T("INTEGER_NUMBER", "0xFFu128"), T("TRUE_KW", "true"), T("FALSE_KW", "false"),
               T("BYTE_STRING", "x\"0aff\""), T("BYTE_STRING", "b\"a\\\" b\"") >>
Addresses == { T("DIEM_ADDRESS", "0x1"), T("DIEM_ADDRESS", "0xAbc"), T("IDENT", "std") }
Use(way, alts) == IF way \in Without THEN {} ELSE alts
Seq_(f) == [i \in 1..1 |-> f]

\* a list of things with separators: empty, or things, and a last separator if one wants
Listed(item, rest) == { <<>>, <<N(item), N(rest)>> }
Rest(item, rest) == { <<>>, <<P(",")>>, <<P(","), N(item), N(rest)>> }

---------------------------------------------------------------------------
(* the grammar: all ways to expand a nonterminal *)
Segment(n) == Node("PATH_SEGMENT", Node("NAME_REF", <<Id(n)>>))
Name(n) == Node("NAME", <<Id(n)>>)
Ways(n) ==
  CASE n.k = "Expr" ->
         UNION { { Node("BIN_EXPR", <<E(Binary[b].p), T(Binary[b].k, Binary[b].w), E(Binary[b].p + 1)>>) } :
                 b \in {b \in 1..Len(Binary) : Binary[b].p >= n.p /\ Binary[b].w \in Ops} }
         \cup Use("prefix", { Node("PREFIX_EXPR", <<Unary[u], E(Tightest)>>) : u \in 1..Len(Unary) })
         \cup { <<N("Postfix")>> }
    [] n.k = "Postfix" ->
         Use("call", { Node("CALL_EXPR", <<N("Postfix")>> \o Node("ARG_LIST", <<P("("), N("Args"), P(")")>>)) })
         \cup Use("dot", { Node("DOT_EXPR", <<N("Postfix"), P(".")>> \o Node("NAME_REF", <<Id(x)>>)) : x \in Names })
         \cup { <<N("Atom")>> }
    [] n.k = "Atom" ->
         Use("path", { Node("PATH_EXPR", <<N("Path")>>) })
         \cup Use("literal", { Node("LITERAL", <<Literals[l]>>) : l \in 1..Len(Literals) })
         \cup Use("address", { Node("LITERAL", Node("ADDRESS_LIT", <<P("@"), a>>)) : a \in Addresses })
         \cup Use("paren", { Node("PAREN_EXPR", <<P("("), E(1), P(")")>>) })
         \cup Use("unit", { Node("PAREN_EXPR", <<P("("), P(")")>>) })
         \cup Use("block", { <<N("Block")>> })
         \cup Use("record", { Node("RECORD_EXPR", <<N("Path")>> \o Node("RECORD_EXPR_FIELD_LIST", <<P("{"), N("Fields"), P("}")>>)) })
    [] n.k = "Args" -> { <<>>, <<E(1), N("ArgRest")>> }
    [] n.k = "ArgRest" -> { <<>>, <<P(",")>>, <<P(","), E(1), N("ArgRest")>> }
    [] n.k = "Fields" -> Listed("Field", "FieldRest")
    [] n.k = "FieldRest" -> Rest("Field", "FieldRest")
    [] n.k = "Field" -> { Node("RECORD_EXPR_FIELD", Node("NAME_REF", <<Id(x)>>) \o <<P(":"), E(1)>>) : x \in Names }
                        \cup { Node("RECORD_EXPR_FIELD", Node("PATH_EXPR", Node("PATH", Segment(x)))) : x \in Names }
    [] n.k = "Path" -> { Node("PATH", Segment(x)) : x \in Names }
                       \cup Use("qualified", { Node("PATH", <<N("Path"), P("::")>> \o Segment(x)) : x \in Names })
    [] n.k = "Block" -> { Node("BLOCK_EXPR", <<P("{"), N("Stmts"), P("}")>>) }
    [] n.k = "Stmts" -> { <<>>, Node("EXPR_STMT", <<E(1)>>), <<N("Stmt"), N("Stmts")>> }
    [] n.k = "Stmt" -> { Node("EXPR_STMT", <<E(1), P(";")>>) } \cup Use("let", { <<N("Let")>> })
    [] n.k = "Let" -> { Node("LET_STMT", <<Kw("let"), N("Pattern")>> \o type \o value \o <<P(";")>>) :
                        type \in {<<>>, <<P(":"), N("Type")>>}, value \in {<<>>, <<P("="), E(1)>>} }
    [] n.k = "Pattern" -> { <<N("Binding")>> }
         \cup Use("tuple", { Node("PAREN_PAT", <<P("("), N("Pattern"), P(")")>>), Node("TUPLE_PAT", <<P("("), P(")")>>),
                             Node("TUPLE_PAT", <<P("("), N("Pattern"), P(","), N("Patterns"), P(")")>>) })
         \cup Use("recordpat", { Node("RECORD_PAT", Node("PATH", Segment(x)) \o Node("RECORD_PAT_FIELD_LIST", <<P("{"), N("PatFields"), P("}")>>)) : x \in Names })
    [] n.k = "Binding" -> { Node("IDENT_PAT", m \o Name(x)) : x \in Names, m \in {<<>>, <<Kw("mut")>>} }
    [] n.k = "Patterns" -> { <<>>, <<N("Pattern")>>, <<N("Pattern"), P(","), N("Patterns")>> }
    [] n.k = "PatFields" -> Listed("PatField", "PatFieldRest")
    [] n.k = "PatFieldRest" -> Rest("PatField", "PatFieldRest")
    [] n.k = "PatField" -> { Node("RECORD_PAT_FIELD", <<N("Binding")>>) }
                           \cup { Node("RECORD_PAT_FIELD", Node("NAME_REF", <<Id(x)>>) \o <<P(":"), N("Pattern")>>) : x \in Names }
    [] n.k = "Type" -> { Node("PATH_TYPE", <<N("Path")>>), Node("REF_TYPE", <<P("&"), N("Type")>>),
                         Node("REF_TYPE", <<P("&mut"), N("Type")>>), Node("REF_TYPE", <<P("&"), Kw("mut"), N("Type")>>) }
    [] n.k = "Fun" -> { Node("FUNCTION_DEF", <<Kw("fun")>> \o Name(x) \o Node("PARAM_LIST", <<P("("), N("Params"), P(")")>>) \o ret \o <<N("Block")>>) :
                        x \in Names, ret \in {<<>>, Node("RET_TYPE", <<P(":"), N("Type")>>)} }
    [] n.k = "Params" -> Listed("Param", "ParamRest")
    [] n.k = "ParamRest" -> Rest("Param", "ParamRest")
    [] n.k = "Param" -> { Node("PARAM", Name(x) \o <<P(":"), N("Type")>>) : x \in Names }
    [] n.k = "Struct" -> { Node("STRUCT", <<Kw("struct")>> \o Name(x) \o g \o body) :
                           x \in Names, g \in {<<>>, Node("GENERIC_PARAM_LIST", <<P("<"), N("TypeParams"), P(">")>>)},
                           body \in {<<P(";")>>, Node("RECORD_FIELD_LIST", <<P("{"), N("Decls"), P("}")>>)} }
    [] n.k = "TypeParams" -> { <<N("TypeParam"), N("TypeParamRest")>> }
    [] n.k = "TypeParamRest" -> Rest("TypeParam", "TypeParamRest")
    [] n.k = "TypeParam" -> { Node("TYPE_PARAM", Name(x) \o b) : x \in Names, b \in {<<>>, <<P(":")>> \o Node("TYPE_BOUND_LIST", <<N("Bounds")>>)} }
    [] n.k = "Bounds" -> { Node("TYPE_BOUND", Name(x)) \o more : x \in Names, more \in {<<>>, <<P("+"), N("Bounds")>>} }
    [] n.k = "Decls" -> Listed("Decl", "DeclRest")
    [] n.k = "DeclRest" -> Rest("Decl", "DeclRest")
    [] n.k = "Decl" -> { Node("RECORD_FIELD", Name(x) \o <<P(":"), N("Type")>>) : x \in Names }
    [] n.k = "Items" -> { <<>>, <<N("Fun"), N("Items")>>, <<N("Struct"), N("Items")>> }
    [] n.k = "Funs" -> { <<>>, <<N("Fun"), N("Funs")>> }
    [] n.k = "Module" -> { Node("MODULE_DEF", <<Kw("module")>> \o Name(x) \o Node("ITEM_LIST", <<P("{"), N("Items"), P("}")>>)) : x \in Names }
    [] n.k = "Addressed" -> { Node("MODULE_DEF", <<Kw("module")>> \o Node("ADDRESS_IDENT", <<a>>) \o <<P("::")>> \o Name(x)
                                   \o Node("ITEM_LIST", <<P("{"), N("Items"), P("}")>>)) : x \in Names, a \in Addresses }
    [] n.k = "Modules" -> { <<>>, <<N("Module"), N("Modules")>> }
    [] n.k = "Top" -> { <<N("Module")>>, <<N("Addressed")>>, Node("SCRIPT_DEF", <<Kw("script")>> \o Node("ITEM_LIST", <<P("{"), N("Funs"), P("}")>>)) }
                      \cup { Node("ADDRESS_DEF", <<Kw("address")>> \o Node("ADDRESS_IDENT", <<a>>)
                                  \o Node("ADDRESS_ITEM_LIST", <<P("{"), N("Modules"), P("}")>>)) : a \in Addresses }
    [] n.k = "Tops" -> { <<>>, <<N("Top"), N("Tops")>> }

Nonterminals == {"Postfix", "Atom", "Args", "ArgRest", "Fields", "FieldRest", "Field", "Path", "Block", "Stmts", "Stmt", "Let", "Pattern", "Binding",
  "Patterns", "PatFields", "PatFieldRest", "PatField", "Type", "Fun", "Params", "ParamRest", "Param", "Struct", "TypeParams", "TypeParamRest",
  "TypeParam", "Bounds", "Decls", "DeclRest", "Decl", "Items", "Funs", "Module", "Addressed", "Modules", "Top", "Tops"}
Levels == {1, 2, 5, 6, 7, 8, 9, 10, 11, 12, Tightest}
Known == { N(k) : k \in Nonterminals } \cup { E(p) : p \in Levels }

(* the least number of tokens a nonterminal stands for, as a fixed point *)
Far == 1000
RECURSIVE SumLen(_, _)
SumLen(cost, body) == IF body = <<>> THEN 0
  ELSE (IF body[1].s = "n" THEN cost[body[1]] ELSE IF body[1].s = "l" THEN 1 ELSE 0) + SumLen(cost, Tail(body))
MinOf(set) == IF set = {} THEN Far ELSE CHOOSE x \in set : \A y \in set : x <= y
WaysOf == [n \in Known |-> Ways(n)]
RECURSIVE Improve(_, _)
Improve(cost, rounds) == IF rounds = 0 THEN cost
  ELSE LET next == [n \in Known |-> MinOf({Far} \cup {SumLen(cost, w) : w \in WaysOf[n]})] IN IF next = cost THEN cost ELSE Improve(next, rounds - 1)
Least == Improve([n \in Known |-> Far], 30)

---------------------------------------------------------------------------
(* where what is derived stands in a program *)
InFun(body) == Node("SOURCE_FILE", Node("SCRIPT_DEF", <<Kw("script")>> \o Node("ITEM_LIST", <<P("{")>> \o
                 Node("FUNCTION_DEF", <<Kw("fun")>> \o Name("f") \o Node("PARAM_LIST", <<P("("), P(")")>>) \o
                   Node("BLOCK_EXPR", <<P("{")>> \o body \o <<P("}")>>)) \o <<P("}")>>)))
InModule(body) == Node("SOURCE_FILE", Node("MODULE_DEF", <<Kw("module")>> \o Name("M") \o Node("ITEM_LIST", <<P("{")>> \o body \o <<P("}")>>)))
Frame ==
  CASE Goal = "Expr" -> InFun(Node("EXPR_STMT", <<E(1)>>))
    [] Goal = "Stmts" -> InFun(<<N("Stmts")>>)
    [] Goal = "Let" -> InFun(<<N("Let")>>)
    [] Goal = "Pattern" -> InFun(Node("LET_STMT", <<Kw("let"), N("Pattern"), P(";")>>))
    [] Goal = "Struct" -> InModule(<<N("Struct")>>)
    [] Goal = "Fun" -> InModule(<<N("Fun")>>)
    [] Goal = "Items" -> InModule(<<N("Items")>>)
    [] Goal = "Tops" -> Node("SOURCE_FILE", <<N("Tops")>>)
FrameLen == SumLen([n \in Known |-> 0], Frame)

VARIABLES out, todo
vars == <<out, todo>>
Terminals(body) == LET stop == {i \in 1..Len(body) : body[i].s = "n"} IN IF stop = {} THEN Len(body) ELSE MinOf(stop) - 1
Written(o, body) == o \o SubSeq(body, 1, Terminals(body))
Pending(body) == SubSeq(body, Terminals(body) + 1, Len(body))
Init == out = Written(<<>>, Frame) /\ todo = Pending(Frame)
Length(o) == Cardinality({i \in 1..Len(o) : o[i].s = "l"})
Next ==
  /\ todo # <<>>
  /\ \E w \in WaysOf[todo[1]] :
       LET body == w \o Tail(todo) IN
       /\ Length(out) + SumLen(Least, body) <= Size + FrameLen
       /\ out' = Written(out, body) /\ todo' = Pending(body)
Spec == Init /\ [][Next]_vars
Complete == todo = <<>>

---------------------------------------------------------------------------
(* laws of the grammar *)
\* what is written is always the beginning of a tree
RECURSIVE Balance(_, _)
Balance(o, stack) == IF o = <<>> THEN TRUE
  ELSE IF o[1].s = "o" THEN Balance(Tail(o), Append(stack, o[1].k))
  ELSE IF o[1].s = "c" THEN stack # <<>> /\ stack[Len(stack)] = o[1].k /\ Balance(Tail(o), SubSeq(stack, 1, Len(stack) - 1))
  ELSE stack # <<>> /\ Balance(Tail(o), stack)
Balanced == Balance(out \o SelectSeq(todo, LAMBDA x : x.s # "n"), <<>>)
=============================================================================
