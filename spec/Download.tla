------------------------------ MODULE Download ------------------------------
(***************************************************************************)
(* How a window gets its tools: for each tool the list of the release is     *)
(* asked for, and if the tool is not there, it comes in pieces to a file of  *)
(* another name, which is renamed when it is complete.                       *)
(***************************************************************************)
EXTENDS Install
CONSTANTS Pieces, MaxTrouble,
          OwnName   \* the file of another name is the window's own (FALSE: a mistake one could make)
VARIABLES pc,     \* [Windows -> where it is]
          tool,   \* [Windows -> the tool it is getting]
          got,    \* [Windows -> pieces that came]
          bound,  \* [Tools -> the file under the final name, 0: none of these]
          inode,  \* [Windows -> file it writes]
          data,   \* contents of the files written so far: Seq(Seq(piece))
          name,   \* [names -> 0 or file]: names are tools (final) and pairs <<window, tool>> (others)
          fails   \* failures so far
dvars == <<pc, tool, got, bound, inode, data, name, fails>>
Temps == (Windows \cup {-1}) \X Tools
TempOf(w) == <<IF OwnName THEN w ELSE -1, tool[w]>>
DInit == /\ pc = [w \in Windows |-> "closed"] /\ tool = [w \in Windows |-> 1] /\ inode = [w \in Windows |-> 0] /\ data = <<>> /\ fails = 0
         /\ got = [w \in Windows |-> 0] /\ bound = [b \in Tools |-> 0]
         /\ name = [n \in Temps |-> 0]
All == [i \in 1..Pieces |-> i]
Go(w, at) == pc' = [pc EXCEPT ![w] = at]
\* on to the next tool that the settings do not name
After(w, b) == LET rest == {c \in Tools : c > b /\ c \notin win[w].own} IN IF rest = {} THEN 0 ELSE CHOOSE c \in rest : \A d \in rest : c <= d
Onward(w) == LET c == After(w, tool[w]) IN
             IF c = 0 THEN Go(w, "try") /\ UNCHANGED tool ELSE Go(w, "list") /\ tool' = [tool EXCEPT ![w] = c]
DOpen(w, own) == /\ Open(w, "", own)
                 /\ LET need == Tools \ own IN
                    IF need = {} THEN Go(w, "try") /\ UNCHANGED tool
                    ELSE Go(w, "list") /\ tool' = [tool EXCEPT ![w] = CHOOSE c \in need : \A d \in need : c <= d]
                 /\ UNCHANGED <<got, bound, inode, data, name, fails>>
DKill(w) == win[w].open /\ Kill(w) /\ Go(w, "closed") /\ UNCHANGED <<tool, got, bound, inode, data, name, fails>>
List(w) == /\ pc[w] = "list" /\ FetchList(w, win[w].token)
           /\ IF final[tool[w]] = "complete" THEN Onward(w) ELSE Go(w, "tool") /\ UNCHANGED tool
           /\ UNCHANGED <<got, bound, inode, data, name, fails>>
\* the answer begins: the file of another name is made empty
Get(w) == /\ pc[w] = "tool" /\ FetchTool(w, tool[w])
          /\ LET old == name[TempOf(w)] IN
             IF old # 0 THEN data' = [data EXCEPT ![old] = <<>>] /\ inode' = [inode EXCEPT ![w] = old] /\ UNCHANGED name
             ELSE data' = Append(data, <<>>) /\ inode' = [inode EXCEPT ![w] = Len(data) + 1] /\ name' = [name EXCEPT ![TempOf(w)] = Len(data) + 1]
          /\ Go(w, "piece") /\ got' = [got EXCEPT ![w] = 0] /\ UNCHANGED <<tool, bound, fails>>
State(d) == IF d = All THEN "complete" ELSE "else"
Piece(w) == /\ pc[w] = "piece" /\ got[w] < Pieces
            /\ got' = [got EXCEPT ![w] = @ + 1]
            /\ data' = [data EXCEPT ![inode[w]] = Append(@, got[w] + 1)]
            /\ final' = [b \in Tools |-> IF bound[b] = inode[w] THEN State(data'[inode[w]]) ELSE final[b]]
            /\ UNCHANGED <<win, bad, pc, tool, bound, inode, name, fails>>
Rename(w) == /\ pc[w] = "piece" /\ got[w] = Pieces
             /\ LET f == name[TempOf(w)] b == tool[w] IN
                IF f = 0
                THEN Fails(w) /\ Go(w, "dialog") /\ UNCHANGED <<name, tool, bound>>
                ELSE /\ final' = [final EXCEPT ![b] = State(data[f])] /\ bound' = [bound EXCEPT ![b] = f]
                     /\ name' = [name EXCEPT ![TempOf(w)] = 0] /\ UNCHANGED <<win, bad>> /\ Onward(w)
             /\ UNCHANGED <<got, inode, data, fails>>
Trouble(w) == /\ pc[w] \in {"list", "tool", "piece"} /\ fails < MaxTrouble
              /\ fails' = fails + 1 /\ win' = [win EXCEPT ![w].trouble = @ + 1, ![w].again = Less(@)] /\ UNCHANGED <<final, bad>>
              /\ pc' = [pc EXCEPT ![w] = IF @ = "list" THEN "dialog-list" ELSE "dialog"] /\ UNCHANGED <<tool, got, bound, inode, data, name>>
Asked(w, c) == /\ pc[w] \in {"dialog", "dialog-list"}
               /\ win' = [win EXCEPT ![w] = LET v == [@ EXCEPT !.trouble = 0] IN
                            CASE c = "retry" -> [v EXCEPT !.again = @ + 1] [] c = "token" -> [v EXCEPT !.typing = @ + 1] [] OTHER -> [v EXCEPT !.given = 1, !.told = 1]]
               /\ UNCHANGED <<final, bad>>
               /\ Go(w, IF c = "retry" THEN (IF pc[w] = "dialog" THEN "tool" ELSE "list")
                        ELSE IF c = "token" THEN (IF pc[w] = "dialog" THEN "type" ELSE "type-list") ELSE "off")
               /\ UNCHANGED <<tool, got, bound, inode, data, name, fails>>
Typed(w, kept, token) == /\ pc[w] \in {"type", "type-list"} /\ Type(w, kept, token)
                         /\ Go(w, IF pc[w] = "type" THEN "tool" ELSE "list") /\ UNCHANGED <<tool, got, bound, inode, data, name, fails>>
Try(w) == /\ pc[w] = "try" /\ StartServer(w, 1, 1 \in win[w].own) /\ Go(w, "on") /\ UNCHANGED <<tool, got, bound, inode, data, name, fails>>
Done == \A w \in Windows : pc[w] \in {"on", "off", "closed"} => Settled(w)
=============================================================================
