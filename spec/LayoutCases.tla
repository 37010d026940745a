----------------------------- MODULE LayoutCases ----------------------------
(* Recorded [variants |-> <<[s, events, errors]>>]: layouts of the same tokens. *)
EXTENDS Layout, Cases
Judge == LET vs == Cases[k].variants IN
  IF \E i \in 2..Len(vs) : Words_(vs[i].s) # Words_(vs[1].s) THEN PrintT(ToJson([bad |-> k, why |-> "tokens"]))
  ELSE (LET m == Meaning(vs[1]) IN \A i \in 2..Len(vs) : Meaning(vs[i]) = m) \/ PrintT(ToJson([bad |-> k, why |-> "meaning"]))
=============================================================================
