------------------------------- MODULE Editor -------------------------------
(***************************************************************************)
(* What somebody who uses the editor extension sees of it: documents shown,  *)
(* manifests written, the extension reloaded, and language servers started   *)
(* and told to stop. Extension.tla says how the extension (editors/code/src) *)
(* goes about it; EditorTrace.tla judges what the real extension did.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Folders
VARIABLES manifest,  \* [Folders -> manifest]: what Dove.toml of the folder says now
          seen,      \* [Folders -> set of manifests]: what it said since the activation
          active,    \* the folders (at most one) with the document in front
          shown,     \* the folders of which a document was shown since the activation
          chosen,    \* the server that the settings name now
          exes,      \* those they named since the activation
          up,        \* the activation is complete
          owed,      \* after this the extension has to be reloaded: "asked", or a manifest was written
          closed,    \* the editor was closed
          warned,    \* a mistake was shown since the activation
          servers    \* servers that run: set of [id, folder, exe, opts]
evars == <<manifest, seen, active, shown, chosen, exes, up, owed, closed, warned, servers>>
(* A manifest: [state |-> "none", "bad" or "ok", and what "dove metadata" prints of it] *)
Asked == -2
Range(s) == {s[i] : i \in 1..Len(s)}
(* What the server of a folder is told of it *)
Options(m) == [dialect |-> m.dialect, account |-> m.account,
               folders |-> Range(m.locals) \cup UNION {Range(m.gits[i]) : i \in 1..Len(m.gits)} \cup {m.modules}]
EInit(m, a, x) ==
  /\ manifest = m /\ seen = [f \in Folders |-> {m[f]}] /\ active = a /\ shown = a
  /\ chosen = x /\ exes = {x} /\ up = FALSE /\ owed = {} /\ closed = FALSE /\ warned = FALSE /\ servers = {}
Show(fs) == /\ active' = fs /\ shown' = shown \cup fs /\ UNCHANGED <<manifest, seen, chosen, exes, up, owed, servers, closed, warned>>
\* the manifest of f changes: "save" in the editor, "file" operation of the editor, "outside" of it
Write(f, m, how) ==
  /\ manifest' = [manifest EXCEPT ![f] = m] /\ seen' = [seen EXCEPT ![f] = @ \cup {m}]
  /\ owed' = IF m.state # "ok" THEN owed \ {f} ELSE IF how # "outside" /\ up THEN owed \cup {f} ELSE owed
  /\ shown' = IF how = "save" THEN shown \cup {f} ELSE shown
  /\ UNCHANGED <<active, chosen, exes, up, servers, closed, warned>>
Choose(x) == chosen' = x /\ exes' = exes \cup {x} /\ owed' = (IF up THEN owed \cup {Asked} ELSE owed) /\ UNCHANGED <<manifest, seen, active, shown, up, servers, closed, warned>>
Ask == owed' = (IF up THEN owed \cup {Asked} ELSE owed) /\ UNCHANGED <<manifest, seen, active, shown, chosen, exes, up, servers, closed, warned>>
Ready == up' = TRUE /\ UNCHANGED <<manifest, seen, active, shown, chosen, exes, owed, servers, closed, warned>>
\* the extension is activated again; left: the servers that still run
Reload(left) ==
  /\ up' = FALSE /\ owed' = {} /\ warned' = FALSE /\ shown' = active /\ exes' = {chosen}
  /\ seen' = [f \in Folders |-> {manifest[f]}] /\ servers' = left
  /\ UNCHANGED <<manifest, active, chosen, closed>>
Warn == warned' = TRUE /\ UNCHANGED <<manifest, seen, active, shown, chosen, exes, up, owed, closed, servers>>
Close(left) ==
  /\ up' = FALSE /\ owed' = {} /\ closed' = TRUE /\ active' = {} /\ shown' = {} /\ servers' = left
  /\ UNCHANGED <<manifest, seen, chosen, exes, warned>>
Start(s) == servers' = servers \cup {s} /\ UNCHANGED <<manifest, seen, active, shown, chosen, exes, up, owed, closed, warned>>
Stop(id) == /\ \E s \in servers : s.id = id
            /\ servers' = {s \in servers : s.id # id} /\ UNCHANGED <<manifest, seen, active, shown, chosen, exes, up, owed, closed, warned>>
(* The property P25 *)
Of(f) == {s \in servers : s.folder = f}
One == \A f \in Folders : Cardinality(Of(f)) <= 1
\* a server that runs belongs to a project that was shown, and was told what its manifest says
Proper(s) == s.folder \in shown /\ s.exe \in exes /\ \E m \in seen[s.folder] : m.state = "ok" /\ s.opts = Options(m)
\* when nothing is outstanding
Right ==
  /\ owed = {}
  /\ \A f \in Folders : f \in shown /\ (\A m \in seen[f] : m.state = "ok") => Of(f) # {}
  /\ (\E f \in shown : \A m \in seen[f] : m.state = "bad") => warned
  /\ \A s \in servers : Proper(s)
\* the tasks that are offered (a sequence of [f, at, words, group]): to build and to test each of these projects, once
Wanted == {[f |-> s.folder, at |-> s.folder, words |-> <<"/dove", w>>, group |-> w] : s \in servers, w \in {"build", "test"}}
Offers(tasks) == Range(tasks) = Wanted /\ Len(tasks) = Cardinality(Wanted)
=============================================================================
