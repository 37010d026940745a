---------------------------- MODULE ExtensionGen ----------------------------
(* Behaviours of Extension, as what the editor does and which answers arrive. *)
EXTENDS Extension, TLC, Json
CONSTANTS Steps, Starts, Names, Log
VARIABLE hist
gvars == <<evars, xvars, hist>>
None == [state |-> "none"]
Bad == [state |-> "bad"]
Ok(n) == [state |-> "ok", n |-> n, dialect |-> n, account |-> n, locals |-> <<>>, gits |-> <<>>, modules |-> n]
ManifestsDef == {None, Bad, Ok(1), Ok(2)}
ManifestsFew == {Bad, Ok(1)}
StartsDef == {[m |-> [f \in Folders |-> IF f = 0 THEN a ELSE b], act |-> c] : a \in {None, Ok(1)}, b \in {Ok(1), Bad}, c \in {{}, {0}, {1}}}
StartsFew == {[m |-> [f \in Folders |-> Ok(1)], act |-> c] : c \in {{}, {0}}}
Note(e) == hist' = IF Log THEN Append(hist, e) ELSE hist
Short(m) == IF m.state = "ok" THEN m.n ELSE IF m.state = "bad" THEN 0 ELSE -1
GInit == \E s \in Starts : EInit(s.m, s.act, 1) /\ XInit /\ hist = IF Log THEN <<[do |-> "begin", manifests |-> [f \in Folders |-> Short(s.m[f])], active |-> s.act]>> ELSE <<>>
Alike(t) == Cardinality({u \in tasks : u.at = t.at /\ u.n < t.n /\ (t.at # "mkdir" => u.folder = t.folder)})
GNext ==
  /\ Len(hist) < Steps
  /\ \/ \E f \in Folders : ~closed /\ XShow(f) /\ Note([do |-> "show", f |-> f])
     \/ ~closed /\ XAway /\ Note([do |-> "show", f |-> -1])
     \/ \E f \in Folders, m \in Names, how \in {"save", "file", "outside"} :
          ~closed /\ m # manifest[f] /\ XWrite(f, m, how) /\ Note([do |-> "write", f |-> f, m |-> Short(m), how |-> how])
     \/ XClose /\ Note([do |-> "close"])
     \/ XReload /\ Note([do |-> "reload"])
     \/ \E x \in {1, 2} : ~closed /\ XChoose(x) /\ Note([do |-> "choose", x |-> x])
     \/ ~closed /\ XReady /\ hist' = hist
     \/ \E t \in tasks : Step(t) /\ Note([do |-> "answer", at |-> t.at, f |-> t.folder, i |-> Alike(t)])
GSpec == GInit /\ [][GNext]_gvars
Emit == (Len(hist) = Steps \/ (Len(hist) > 4 /\ tasks = {} /\ (up \/ closed))) => PrintT(ToJson(hist))
=============================================================================
