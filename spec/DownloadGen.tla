---------------------------- MODULE DownloadGen -----------------------------
(* Behaviours of Download, as what the windows are given to do and which answers arrive. *)
EXTENDS Download, TLC, Json
CONSTANTS Steps, Owns, Log
VARIABLE hist
OwnsDef == SUBSET Tools
OwnsFew == {{}, {2}}
Note(e) == hist' = IF Log THEN Append(hist, e) ELSE hist
GInit == \E f \in [Tools -> {"absent", "complete"}] :
           IInit(f) /\ DInit /\ hist = IF Log THEN <<[do |-> "begin", there |-> {b \in Tools : f[b] = "complete"}]>> ELSE <<>>
GNext ==
  /\ Len(hist) < Steps
  /\ \E w \in Windows :
     \/ \E own \in Owns : DOpen(w, own) /\ Note([do |-> "open", w |-> w, own |-> own])
     \/ DKill(w) /\ fails < MaxTrouble /\ Note([do |-> "kill", w |-> w])
     \/ (List(w) \/ Get(w) \/ Piece(w) \/ Rename(w)) /\ Note([do |-> "answer", w |-> w])
     \/ Trouble(w) /\ Note([do |-> "fail", w |-> w])
     \/ \E c \in {"retry", "token", "dismiss"} : Asked(w, c) /\ Note([do |-> "choose", w |-> w, c |-> c])
     \/ \E v \in {"-", "", "t1"} : Typed(w, v = "-", v) /\ Note([do |-> "type", w |-> w, v |-> v])
     \/ Try(w) /\ hist' = hist
GSpec == GInit /\ [][GNext]_<<ivars, dvars, hist>>
Small == Len(data) <= 4
Emit == (Len(hist) = Steps \/ (Len(hist) > 2 /\ \A w \in Windows : pc[w] \in {"on", "off"})) => PrintT(ToJson(hist))
=============================================================================
