------------------------------ MODULE Snapshots -----------------------------
(***************************************************************************)
(* Snapshots of the analysis, used by readers while a writer applies        *)
(* changes.  Mirrors crates/ide/src/lib.rs and crates/ide_db/src/           *)
(* apply_change.rs on top of the query engine: a writer first asks running  *)
(* questions to stop, and waits until no snapshot is left.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Snaps
VARIABLES now,      \* number of changes applied
          snap,     \* snap[s]: state ("free", "held", "asking") and moment it was taken
          writer    \* "idle" or "waiting"
svars == <<now, snap, writer>>
Free == [st |-> "free", at |-> 0]
SInit == now = 0 /\ snap = [s \in Snaps |-> Free] /\ writer = "idle"
\* the owner of the analysis takes snapshots; while it applies a change it cannot
Take(s) == /\ writer = "idle" /\ snap[s].st = "free"
           /\ snap' = [snap EXCEPT ![s] = [st |-> "held", at |-> now]] /\ UNCHANGED <<now, writer>>
Ask(s) == /\ snap[s].st = "held"
          /\ snap' = [snap EXCEPT ![s].st = "asking"] /\ UNCHANGED <<now, writer>>
\* an answer is the moment it is true of, or "cancelled" (written <<>>)
Answers(s) == {<<snap[s].at>>} \cup (IF writer = "waiting" THEN {<<>>} ELSE {})
Answer(s, a) == /\ snap[s].st = "asking" /\ a \in Answers(s)
                /\ snap' = [snap EXCEPT ![s].st = "held"] /\ UNCHANGED <<now, writer>>
Drop(s) == /\ snap[s].st = "held"
           /\ snap' = [snap EXCEPT ![s] = Free] /\ UNCHANGED <<now, writer>>
Begin == writer = "idle" /\ writer' = "waiting" /\ UNCHANGED <<now, snap>>
InUse == {s \in Snaps : snap[s].st # "free"}
Finish == /\ writer = "waiting" /\ InUse = {}
          /\ writer' = "idle" /\ now' = now + 1 /\ UNCHANGED snap
SNext == \/ \E s \in Snaps : Take(s) \/ Ask(s) \/ Drop(s) \/ \E a \in Answers(s) : Answer(s, a)
         \/ Begin \/ Finish
SSpec == SInit /\ [][SNext]_svars

(* properties *)
STypeOK == now \in Nat /\ writer \in {"idle", "waiting"} /\ \A s \in Snaps : snap[s].st \in {"free", "held", "asking"}
\* everything in use is of the current moment: an answer can never mix two
OneMoment == \A s \in InUse : snap[s].at = now
AnswersTrue == \A s \in Snaps : snap[s].st = "asking" => \A a \in Answers(s) : a = <<>> \/ a = <<now>>
\* without a writer there are no cancellations
Calm == writer = "idle" => \A s \in Snaps : \A a \in Answers(s) : a # <<>>
AppliedAlone == [][now' # now => InUse = {}]_svars
\* the writer is let in if every question gets an answer and snapshots are dropped when the writer waits
Fairly == SSpec /\ WF_svars(Finish)
          /\ \A s \in Snaps : WF_svars(\E a \in Answers(s) : Answer(s, a)) /\ SF_svars(writer = "waiting" /\ Drop(s))
Few == now <= 3
LetIn == writer = "waiting" ~> writer = "idle"
=============================================================================
