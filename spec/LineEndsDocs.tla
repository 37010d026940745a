---------------------------- MODULE LineEndsDocs ----------------------------
(* What a server showed of documents with several kinds of line ends: [docs |-> <<[s, shown]>>,   *)
(* fresh |-> <<[s, shown]>>], the latter from a fresh analysis of exactly that text.              *)
EXTENDS LineEnds, Cases
Ok(c) == \A i \in 1..Len(c.docs) :
           LET t == Strip(c.docs[i].s) IN
             /\ \E j \in 1..Len(c.fresh) : c.fresh[j].s = t
             /\ \A j \in 1..Len(c.fresh) : c.fresh[j].s = t => c.fresh[j].shown = c.docs[i].shown
Judge == Ok(Cases[k]) \/ PrintT(ToJson([bad |-> k]))
=============================================================================
