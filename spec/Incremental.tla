----------------------------- MODULE Incremental ----------------------------
(***************************************************************************)
(* The analysis as a memory of facts and a memo of answers.  The facts are  *)
(* what changes (crates/base_db/src/change.rs, crates/ide_db/src/           *)
(* apply_change.rs) have told: texts, and the partition of the files into   *)
(* roots.  Answers are computed from the facts and remembered, the way the  *)
(* query engine does it: revisions, durabilities, and memos that are        *)
(* reused while nothing they depend on has changed.                         *)
(* The property: what is answered is what the facts alone determine.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Files, Texts
Low == 0
High == 1
Empty == 0            \* the text of a removed file

VARIABLES roots,      \* sequence of [lib : BOOLEAN, files : SUBSET Files], disjoint
          owner,      \* owner[f]: <<>>, or <<index>> of the root that was last told to hold it
          text,       \* text[f]: <<>> (never told), or <<t>>
          (* the engine *)
          rev,        \* the current revision
          highrev,    \* when something durable has last changed
          stamp,      \* stamp[f]: when and how durably the text was set
          memo        \* memo[f]: <<>>, or what was computed from the text, when it was last known
                      \* to be current, and how durable its ingredients were
facts == <<roots, owner, text>>
engine == <<rev, highrev, stamp, memo>>
ivars == <<roots, owner, text, rev, highrev, stamp, memo>>

Holder(rs, f) == {i \in 1..Len(rs) : f \in rs[i].files}
OwnerIn(rs, own) == [f \in Files |-> IF Holder(rs, f) = {} THEN own[f] ELSE <<CHOOSE i \in Holder(rs, f) : TRUE>>]
\* roots that are told no more keep their last meaning for the files that are in no root any more
IInit == /\ roots = <<>> /\ owner = [f \in Files |-> <<>>] /\ text = [f \in Files |-> <<>>]
         /\ rev = 1 /\ highrev = 1 /\ stamp = [f \in Files |-> [at |-> 0, dur |-> Low]] /\ memo = [f \in Files |-> <<>>]

(* the facts after a change: rs is <<>> or <<roots>>, cs a sequence of <<file, text>> *)
RootsAfter(rs) == IF rs = <<>> THEN roots ELSE rs[1]
OwnerAfter(rs) == IF rs = <<>> THEN owner ELSE OwnerIn(rs[1], owner)
RECURSIVE TextAfter(_, _)
TextAfter(tx, cs) == IF cs = <<>> THEN tx ELSE TextAfter([tx EXCEPT ![cs[1][1]] = <<cs[1][2]>>], Tail(cs))
Tellable(rs, cs) == \A i \in 1..Len(cs) : OwnerAfter(rs)[cs[i][1]] # <<>>

(* the engine: every text that is told is an input set in a new revision *)
Library(rs, own, f) == own[f] # <<>> /\ own[f][1] <= Len(rs) /\ rs[own[f][1]].lib
RECURSIVE Sets(_, _, _, _)
Sets(e, rs, own, cs) ==
  IF cs = <<>> THEN e
  ELSE LET f == cs[1][1]
           told == e.stamp[f].at # 0
           was == e.stamp[f].dur
           now == IF Library(rs, own, f) THEN High ELSE Low
       IN Sets([rev |-> e.rev + 1,
                highrev |-> IF told /\ was = High THEN e.rev + 1 ELSE e.highrev,
                stamp |-> [e.stamp EXCEPT ![f] = [at |-> e.rev + 1, dur |-> now]]], rs, own, Tail(cs))
Change(rs, cs) ==
  /\ Tellable(rs, cs)
  /\ roots' = RootsAfter(rs) /\ owner' = OwnerAfter(rs) /\ text' = TextAfter(text, cs)
  \* asking running questions to stop is itself a new revision; telling roots is a durable change
  /\ LET e == Sets([rev |-> rev + 2, highrev |-> IF rs = <<>> THEN highrev ELSE rev + 2, stamp |-> stamp],
                   roots', owner', cs)
     IN rev' = e.rev /\ highrev' = e.highrev /\ stamp' = e.stamp
  /\ UNCHANGED memo

Fresh(f) == [value |-> text[f][1], at |-> rev, dur |-> stamp[f].dur]
\* may the memo be used as it is?
Current(m, f) == \/ m.at = rev
                 \/ m.dur = High /\ highrev <= m.at
                 \/ stamp[f].at <= m.at
Consult(f) == IF memo[f] # <<>> /\ Current(memo[f][1], f) THEN [memo[f][1] EXCEPT !.at = rev] ELSE Fresh(f)
Ask(f) == text[f] # <<>> /\ memo' = [memo EXCEPT ![f] = <<Consult(f)>>] /\ UNCHANGED <<roots, owner, text, rev, highrev, stamp>>
\* the engine may forget memos
Forget(f) == memo[f] # <<>> /\ memo' = [memo EXCEPT ![f] = <<>>] /\ UNCHANGED <<roots, owner, text, rev, highrev, stamp>>

(* the property *)
Sound == \A f \in Files : text[f] # <<>> => Consult(f).value = text[f][1]

(* what is observed: for every file the text its answers are about, and where it belongs *)
Known == {f \in Files : text[f] # <<>>}
Belongs(f) == Holder(roots, f) # {}
=============================================================================
