------------------------------ MODULE ServerGen -----------------------------
(* Behaviours of Server as schedules for the real event loop, with the publications of each step. *)
EXTENDS Server, Json
CONSTANTS Depth
VARIABLE hist
gvars == <<open, text, ver, gen, tasks, native, pub, sent, edits, hist>>
RECURSIVE SetSeq(_)
SetSeq(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE m \in s : TRUE IN <<m>> \o SetSeq(s \ {m})
Log(step) == hist' = Append(hist, step @@ [pubs |-> SetSeq(sent')])
GInit == Init /\ hist = <<>>
\* at most one message about a document that is not open
Sensible(d) == d \in open \/ ~\E i \in 1..Len(hist) : "odd" \in DOMAIN hist[i]
Odd(d) == IF d \in open THEN <<>> ELSE [odd |-> TRUE]
GNext ==
  /\ Len(hist) < Depth
  /\ \/ \E d \in Docs, t \in Texts : Open(d, t) /\ Log([do |-> "open", d |-> d, t |-> t, v |-> ver'[d]])
     \/ \E d \in Docs, t \in Texts : Sensible(d) /\ Change(d, t) /\ Log([do |-> "change", d |-> d, t |-> t, v |-> ver'[d]] @@ Odd(d))
     \/ \E d \in Docs : Sensible(d) /\ Close(d) /\ Log([do |-> "close", d |-> d] @@ Odd(d))
     \/ \E k \in 1..Len(tasks), d \in Docs : Run(k, d) /\ Log([do |-> "run", k |-> k])
     \/ \E ks \in SUBSET Ready(tasks) : Deliver(ks) /\ Log([do |-> "deliver", ks |-> SetSeq(ks)])
GSpec == GInit /\ [][GNext]_gvars
\* complete behaviours: nothing more is possible, or the depth is reached
Complete == Len(hist) = Depth \/ (edits = MaxEdits /\ Settled)
Emit == Complete => PrintT(ToJson(hist))
=============================================================================
