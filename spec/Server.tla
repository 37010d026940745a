-------------------------------- MODULE Server ------------------------------
(***************************************************************************)
(* The event loop of the language server and its worker threads.  Mirrors  *)
(* crates/move_language_server/src/main_loop.rs (handle_event,              *)
(* update_diagnostics), global_state.rs (process_changes), mem_docs.rs,     *)
(* diagnostics.rs and thread_pool.rs.                                       *)
(*                                                                         *)
(* One turn of the loop handles one message of the editor, or the results  *)
(* of some finished tasks.  A turn that changed a text applies the change, *)
(* which cancels what the running tasks have not yet computed; a turn that *)
(* changed a text or the set of open documents starts a new task, which    *)
(* computes the diagnostics of all open documents from a snapshot.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Docs, Texts, Clean, None,
          MaxEdits, MaxTasks
ASSUME Clean \subseteq Texts

\* what the editor is shown of a text: texts without a problem look the same
Diag(t) == IF t \in Clean THEN "clean" ELSE t

VARIABLES open,    \* set of documents
          text,    \* [Docs -> text the server holds, or None]
          ver,     \* [Docs -> version given with it]
          gen,     \* number of the newest task
          tasks,   \* tasks[k]: what task k works on
          native,  \* [Docs -> stored diagnostics, or None]
          pub,     \* [Docs -> <<>> or the last publication, <<[diag, ver]>>]
          sent,    \* the publications of the last turn: set of [d, diag, ver]
          edits    \* messages the editor sent
vars == <<open, text, ver, gen, tasks, native, pub, sent, edits>>

Init == /\ open = {} /\ text = [d \in Docs |-> None] /\ ver = [d \in Docs |-> 0]
        /\ gen = 0 /\ tasks = <<>> /\ native = [d \in Docs |-> None]
        /\ pub = [d \in Docs |-> <<>>] /\ sent = {} /\ edits = 0

Outstanding(ts) == {k \in 1..Len(ts) : ts[k].st # "gone"}
Ready(ts) == {k \in Outstanding(ts) : ts[k].left = {}}

NewTask(snap, subs) == [gen |-> gen + 1, snap |-> snap, left |-> subs, done |-> {}, st |-> "there"]
\* applying a change: tasks that still have documents to do are cancelled for those
Cancel(ts) == [k \in 1..Len(ts) |-> [ts[k] EXCEPT !.left = {}]]

\* the end of a turn that handled a message
Turn(newOpen, newText, opened) ==
  /\ open' = newOpen
  /\ text' = newText
  /\ LET changed == newText # text
         ts == IF changed THEN Cancel(tasks) ELSE tasks
         again == changed \/ opened
     IN /\ tasks' = IF again THEN Append(ts, NewTask(newText, newOpen)) ELSE ts
        /\ gen' = IF again THEN gen + 1 ELSE gen
  /\ sent' = {}
  /\ edits' = edits + 1
  /\ UNCHANGED <<native, pub>>

CanEdit == edits < MaxEdits /\ Cardinality(Outstanding(tasks)) < MaxTasks

Open(d, t) ==     \* also of a document that is open already
  /\ CanEdit
  /\ ver' = [ver EXCEPT ![d] = @ + 1]
  /\ Turn(open \cup {d}, [text EXCEPT ![d] = t], TRUE)
Change(d, t) ==
  /\ CanEdit
  /\ IF d \in open
     THEN ver' = [ver EXCEPT ![d] = @ + 1] /\ Turn(open, [text EXCEPT ![d] = t], FALSE)
     ELSE UNCHANGED ver /\ Turn(open, text, FALSE)
Close(d) ==       \* also of a document that is not open
  /\ CanEdit /\ UNCHANGED ver
  /\ Turn(open \ {d}, text, TRUE)

\* a worker computes the diagnostics of one more document
Run(k, d) ==
  /\ k \in Outstanding(tasks) /\ d \in tasks[k].left
  /\ tasks' = [tasks EXCEPT ![k].left = @ \ {d}, ![k].done = @ \cup {[d |-> d, diag |-> Diag(tasks[k].snap[d])]}]
  /\ sent' = {}
  /\ UNCHANGED <<open, text, ver, gen, native, pub, edits>>

\* one turn receives the results of some finished tasks (of an older generation: ignores them)
Deliver(ks) ==
  /\ ks # {} /\ ks \subseteq Ready(tasks)
  /\ tasks' = [k \in 1..Len(tasks) |-> IF k \in ks THEN [tasks[k] EXCEPT !.st = "gone", !.snap = None, !.done = {}] ELSE tasks[k]]
  /\ LET results == UNION {tasks[k].done : k \in {k \in ks : tasks[k].gen = gen}}
         new == [d \in Docs |-> IF \E r \in results : r.d = d THEN (CHOOSE r \in results : r.d = d).diag ELSE native[d]]
         changed == {d \in Docs : new[d] # native[d]}
         one(d) == [diag |-> new[d], ver |-> IF d \in open THEN ver[d] ELSE 0]
     IN /\ native' = new
        /\ pub' = [d \in Docs |-> IF d \in changed THEN <<one(d)>> ELSE pub[d]]
        /\ sent' = {[d |-> d] @@ one(d) : d \in changed}
  /\ UNCHANGED <<open, text, ver, gen, edits>>

Edit == \E d \in Docs : Close(d) \/ \E t \in Texts : Open(d, t) \/ Change(d, t)
Work == \/ \E k \in 1..Len(tasks), d \in Docs : Run(k, d)
        \/ \E ks \in SUBSET Ready(tasks) : Deliver(ks)
Next == Edit \/ Work
Spec == Init /\ [][Next]_vars
Settled == Outstanding(tasks) = {}
Fair == Spec /\ WF_vars(Work)

TypeOK == /\ open \subseteq Docs /\ text \in [Docs -> Texts \cup {None}]
          /\ \A k \in 1..Len(tasks) : tasks[k].st \in {"there", "gone"} /\ tasks[k].left \subseteq Docs
          /\ \A d \in open : text[d] # None
(***************************************************************************)
(* The properties.                                                         *)
(***************************************************************************)
\* what the editor shows for an open document is right
Right(d) == pub[d] # <<>> /\ pub[d][1].diag = Diag(text[d])
P01 == Settled => \A d \in open : Right(d)
\* a publication describes the text at its version, and the present one is the only one it can be
P02 == \A p \in sent : IF p.d \in open THEN p.ver = ver[p.d] /\ p.diag = Diag(text[p.d]) ELSE p.ver = 0
P02Order == [][\A d \in Docs : pub[d] # <<>> /\ pub'[d] # <<>> /\ pub'[d][1].ver # 0 => pub'[d][1].ver >= pub[d][1].ver]_vars
\* once the editor is silent, every open document gets there
P01Live == (edits = MaxEdits) ~> (Settled /\ \A d \in open : Right(d))
\* only the newest task can publish: older ones are of an older generation
OnlyNewest == \A k \in 1..Len(tasks) : tasks[k].gen = gen => k = Len(tasks)
=============================================================================
