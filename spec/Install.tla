------------------------------- MODULE Install ------------------------------
(***************************************************************************)
(* What is seen of the extension getting its tools: the files under their    *)
(* final names, requests, dialogs, and the programs that are run. Windows of *)
(* the editor share the folder. Download.tla says how the extension          *)
(* (bootstrap.ts, net.ts) goes about it, InstallTrace.tla judges what it did.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Windows, Tools
VARIABLES final,   \* [Tools -> "absent", "complete" (every byte, and may be run), "else"]
          win,     \* [Windows -> what is known of the window]
          bad      \* the settings of a window name no tool that works, or there is none for the platform
ivars == <<final, win, bad>>
\* own: tools the settings name; there: tools that were there when the window opened
Opened(token, own) == [open |-> TRUE, token |-> token, own |-> own, there |-> {b \in Tools : final[b] = "complete"},
                       trouble |-> 0, asking |-> 0, typing |-> 0, again |-> 0, given |-> 0, told |-> 0, started |-> FALSE, broken |-> FALSE]
Shut == [open |-> FALSE, token |-> "", own |-> {}, there |-> {}, trouble |-> 0, asking |-> 0, typing |-> 0, again |-> 0, given |-> 0, told |-> 0,
         started |-> FALSE, broken |-> FALSE]
IInit(f) == final = f /\ win = [w \in Windows |-> Shut] /\ bad = FALSE
Put(w, r) == win' = [win EXCEPT ![w] = r]
Less(n) == IF n = 0 THEN 0 ELSE n - 1
Open(w, token, own) == ~win[w].open /\ Put(w, Opened(token, own)) /\ UNCHANGED <<final, bad>>
Kill(w) == Put(w, Shut) /\ UNCHANGED <<final, bad>>
\* what is requested: the list of the release, with the token; a tool: only one that is neither there nor named
FetchList(w, token) == /\ token = win[w].token /\ win[w].own # Tools
                       /\ Put(w, [win[w] EXCEPT !.again = Less(@)]) /\ UNCHANGED <<final, bad>>
FetchTool(w, b) == /\ b \in Tools \ (win[w].own \cup win[w].there)
                   /\ Put(w, [win[w] EXCEPT !.again = Less(@)]) /\ UNCHANGED <<final, bad>>
Fails(w) == Put(w, [win[w] EXCEPT !.trouble = @ + 1]) /\ UNCHANGED <<final, bad>>
Dialog(w) == win[w].trouble > 0 /\ Put(w, [win[w] EXCEPT !.trouble = @ - 1, !.asking = @ + 1]) /\ UNCHANGED <<final, bad>>
Choose(w, c) ==
  /\ win[w].asking > 0
  /\ Put(w, LET v == [win[w] EXCEPT !.asking = @ - 1] IN
            CASE c = "retry" -> [v EXCEPT !.again = @ + 1]
              [] c = "token" -> [v EXCEPT !.typing = @ + 1]
              [] OTHER -> [v EXCEPT !.given = @ + 1])
  /\ UNCHANGED <<final, bad>>
\* token: "" no token is used from now on; kept: the dialog was left
Type(w, kept, token) == /\ win[w].typing > 0
                        /\ Put(w, [win[w] EXCEPT !.typing = @ - 1, !.again = @ + 1, !.token = IF kept THEN @ ELSE token])
                        /\ UNCHANGED <<final, bad>>
Tell(w) == Put(w, [win[w] EXCEPT !.told = @ + 1]) /\ UNCHANGED <<final, bad>>
\* a tool is run: the one that is named, or the complete one
Usable(w, b, named) == IF b \in win[w].own THEN named ELSE ~named /\ final[b] = "complete"
RunTool(w, b, named, works) == Usable(w, b, named) /\ Put(w, [win[w] EXCEPT !.broken = @ \/ ~works]) /\ UNCHANGED <<final, bad>>
StartServer(w, b, named) == /\ Usable(w, b, named) /\ ~win[w].broken /\ win[w].given = 0
                            /\ Put(w, [win[w] EXCEPT !.started = TRUE]) /\ UNCHANGED <<final, bad>>
Files(f) == final' = f /\ UNCHANGED <<win, bad>>
(* The property P26 *)
Sound == \A b \in Tools : final[b] \in {"absent", "complete"}
Kept == [][\A b \in Tools : final[b] = "complete" => final'[b] = "complete"]_ivars
\* when nothing is outstanding
Settled(w) ==
  LET v == win[w] IN
  v.open => /\ v.trouble = 0 /\ v.asking = 0 /\ v.typing = 0 /\ v.again = 0
            /\ (v.given > 0 \/ v.broken) => v.told > 0 /\ ~v.started
            /\ v.given = 0 /\ ~v.broken => v.started
=============================================================================
