----------------------------- MODULE Extension ------------------------------
(***************************************************************************)
(* How the extension starts and stops servers: extension.ts, ws.ts. Every    *)
(* "await" ends a step: the extension is reloaded, other documents are       *)
(* shown and manifests are written between any two of them.                  *)
(***************************************************************************)
EXTENDS Editor
CONSTANTS MaxTasks,  \* how many things are begun, in all
          Guarded    \* tasks of an earlier activation start nothing (FALSE: the defect that was fixed)
VARIABLES gen,       \* activations so far
          tasks,     \* what is under way: set of [n, gen, folder, kind, at]; kind "first" holds up the activation
          begun,     \* tasks begun so far
          entered    \* pairs <<activation, folder>> that have a workspace
xvars == <<gen, tasks, begun, entered>>
Task(n, g, f, kind) == [n |-> n, gen |-> g, folder |-> f, kind |-> kind, at |-> IF kind = "check" THEN "mkdir" ELSE "stat"]
XInit == /\ gen = 1 /\ entered = {} /\ begun = Cardinality(active)
         /\ tasks = {Task(1, 1, f, "first") : f \in active}
Begin(ts) == tasks' = tasks \cup ts /\ begun' = begun + Cardinality(ts)
Room(n) == begun + n <= MaxTasks
XShow(f) == Room(1) /\ Show({f}) /\ Begin({Task(begun + 1, gen, f, "show")}) /\ UNCHANGED <<gen, entered>>
XAway == active # {} /\ Show({}) /\ UNCHANGED xvars
XWrite(f, m, how) ==
  /\ Write(f, m, how) /\ UNCHANGED <<gen, entered>>
  /\ LET init == IF how = "save" THEN {Task(begun + 1, gen, f, "show")} ELSE {}
         check == IF how # "outside" /\ up THEN {Task(begun + 2, gen, f, "check")} ELSE {}
     IN tasks' = tasks \cup init \cup check /\ begun' = begun + 2 /\ Room(2)
\* the workspaces of this activation are told to stop, and the document in front is looked at again
Again == /\ Reload({s \in servers : s.gen # gen}) /\ gen' = gen + 1 /\ UNCHANGED entered
Reloaded(ts) == Again /\ Room(1) /\ begun' = begun + 1 /\ tasks' = ts \cup {Task(begun + 1, gen + 1, f, "first") : f \in active}
XReload == up /\ Reloaded(tasks)
\* the settings: reloaded at once
XChoose(x) == /\ x # chosen /\ Room(1)
              /\ IF ~up THEN Choose(x) /\ UNCHANGED xvars
                 ELSE /\ chosen' = x /\ exes' = {x} /\ up' = FALSE /\ owed' = {} /\ warned' = FALSE /\ shown' = active
                      /\ seen' = [f \in Folders |-> {manifest[f]}] /\ servers' = {s \in servers : s.gen # gen}
                      /\ UNCHANGED <<manifest, active, closed, entered>>
                      /\ gen' = gen + 1 /\ begun' = begun + 1
                      /\ tasks' = tasks \cup {Task(begun + 1, gen + 1, f, "first") : f \in active}
XReady == ~up /\ (\A t \in tasks : t.kind = "first" => t.gen # gen) /\ Ready /\ UNCHANGED xvars
\* nothing is started any more; what is being checked is not followed here
XClose == /\ up /\ (\A t \in tasks : t.kind # "check") /\ Close({s \in servers : s.gen # gen})
          /\ gen' = gen + 1 /\ UNCHANGED <<tasks, begun, entered>>
To(t, at) == tasks' = (tasks \ {t}) \cup {[t EXCEPT !.at = at]} /\ UNCHANGED begun
Drop(t) == tasks' = tasks \ {t} /\ UNCHANGED begun
Mine(t) == Guarded => t.gen = gen
Step(t) ==
  LET f == t.folder m == manifest[t.folder] IN
  CASE t.at = "stat" ->
         (IF m.state = "none" THEN Drop(t) ELSE To(t, "mkdir")) /\ UNCHANGED <<evars, gen, entered>>
    [] t.at = "mkdir" /\ t.kind = "check" -> To(t, "read") /\ UNCHANGED <<evars, gen, entered>>
    [] t.at = "mkdir" /\ t.kind # "check" ->
         /\ IF <<t.gen, f>> \in entered \/ ~Mine(t) THEN Drop(t) /\ UNCHANGED entered
            ELSE To(t, "glance") /\ entered' = entered \cup {<<t.gen, f>>}
         /\ UNCHANGED <<evars, gen>>
    [] t.at = "glance" -> To(t, "read") /\ UNCHANGED <<evars, gen, entered>>
    [] t.at = "read" /\ t.kind = "check" ->
         IF m.state = "ok" /\ up THEN Reloaded(tasks \ {t})
         ELSE Drop(t) /\ (IF m.state = "ok" THEN UNCHANGED evars ELSE Warn) /\ UNCHANGED <<gen, entered>>
    [] OTHER ->
         /\ IF m.state = "ok" /\ Mine(t)
            THEN \E x \in {chosen} : Start([id |-> t.n, gen |-> t.gen, folder |-> f, exe |-> x, opts |-> Options(m)])
            ELSE IF m.state = "ok" THEN UNCHANGED evars ELSE Warn
         /\ Drop(t) /\ UNCHANGED <<gen, entered>>
Quiet == (up \/ closed) /\ tasks = {} => Right
=============================================================================
