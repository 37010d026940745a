---------------------------- MODULE EditorTrace -----------------------------
(* What the real extension did must be a behaviour of Editor that has the property. *)
EXTENDS Editor, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES t, l,
          stirred,  \* something was done after which the extension may be reloaded
          probes    \* documents that a server may look at: set of [n, folder (of a Move document in it, else -1)]
tvars == <<evars, t, l, stirred, probes>>
Line == Traces[t][l]
First == Traces[t][1]
FolderSet == 0..(Len(First.manifests) - 1)
TInit == /\ t \in 1..Len(Traces) /\ l = 2 /\ stirred = FALSE /\ probes = Range(First.probes)
         /\ LET f == First IN
            /\ manifest = [i \in Folders |-> IF i < Len(f.manifests) THEN f.manifests[i + 1] ELSE [state |-> "none"]]
            /\ EInit(manifest, Range(f.active), f.exe)
Server == [id |-> Line.id, folder |-> Line.f, exe |-> Line.exe,
           opts |-> [dialect |-> Line.opts.dialect, account |-> Line.opts.account, folders |-> Range(Line.opts.folders)]]
Stir == stirred' = TRUE
Same == stirred' = stirred
At == PrintT(ToJson([at |-> t, line |-> l])) \/ TRUE
TNext ==
  /\ l <= Len(Traces[t]) /\ l' = l + 1 /\ t' = t /\ probes' = probes /\ At
  /\ \/ Line.ev = "show" /\ Show(Range(Line.fs)) /\ Same
     \/ Line.ev = "write" /\ Write(Line.f, Line.m, Line.how) /\ Stir
     \/ Line.ev = "choose" /\ Choose(Line.x) /\ Stir
     \/ Line.ev = "ask" /\ Ask /\ Stir
     \/ Line.ev = "ready" /\ ~up /\ (IF closed THEN UNCHANGED evars ELSE Ready) /\ Same
     \/ Line.ev = "reload" /\ (IF closed THEN UNCHANGED evars ELSE stirred /\ Reload(servers)) /\ Same
     \/ Line.ev = "warn" /\ Warn /\ Same
     \/ Line.ev = "start" /\ Line.f \in Folders /\ Start(Server) /\ Proper(Server) /\ One' /\ Same
        /\ Range(Line.covers) = {p.n : p \in {p \in probes : p.folder = Line.f}}
     \/ Line.ev = "close" /\ Close(servers) /\ Same
     \/ Line.ev = "stop" /\ Stop(Line.id) /\ Same
     \/ Line.ev = "quiet" /\ (up \/ closed) /\ Right /\ Offers(Line.tasks) /\ UNCHANGED evars /\ Same
TSpec == TInit /\ [][TNext]_tvars
Accept == l = Len(Traces[t]) + 1 => PrintT(ToJson([accepted |-> t]))
=============================================================================
