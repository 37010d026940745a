----------------------------- MODULE RequestsGen ----------------------------
(* All sequences of messages up to a length, with the answers each is due. *)
EXTENDS Requests, TLC, Json
CONSTANTS Depth, Kinds
VARIABLE hist
KindsDef == {"shutdown", "shutdown-params", "unknown", "initialize", "cancel-old", "cancel-next", "note", "bad-note", "open", "reply"}
IdOf(n) == IF n % 2 = 0 THEN n ELSE -n
Method(k) == IF k \in {"shutdown", "shutdown-params"} THEN "shutdown" ELSE k
IsRequest(k) == k \in {"shutdown", "shutdown-params", "unknown", "initialize"}
GInit == RInit /\ hist = <<>>
GNext ==
  /\ Len(hist) < Depth
  /\ \E k \in Kinds :
       LET id == Len(hist) + 1 IN
       /\ k = "reply" => ~\E i \in 1..Len(hist) : hist[i].kind = "reply"
       /\ IF IsRequest(k)
          THEN LET o == Outcome(Method(k), IF k = "shutdown-params" THEN "other" ELSE "null")
               IN /\ down' = (down \/ o = Null) /\ UNCHANGED pending
                  /\ hist' = Append(hist, [kind |-> k, id |-> id, due |-> <<o>>])
          ELSE /\ UNCHANGED rvars
               /\ hist' = Append(hist, [kind |-> k, id |-> id, due |-> <<>>])
GSpec == GInit /\ [][GNext]_<<down, pending, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
\* the specification itself, with answers at any later moment (the property P03)
ANext == \/ \E id \in 1..3, m \in {"shutdown", "unknown"}, p \in {"null", "other"} :
              id \notin {h.id : h \in hist[1]} /\ Ask(id, m, p)
              /\ hist' = <<hist[1] \cup {[id |-> id, at |-> IF down THEN "after" ELSE "before", m |-> m, p |-> p]}, hist[2]>>
         \/ \E p \in pending : Answer(p.id, p.outcome) /\ hist' = <<hist[1], hist[2] \cup {p}>>
ASpec == RInit /\ hist = <<{}, {}>> /\ [][ANext]_<<down, pending, hist>> /\ WF_<<down, pending, hist>>(\E p \in pending : Answer(p.id, p.outcome) /\ hist' = <<hist[1], hist[2] \cup {p}>>)
Once == \A a, b \in hist[2] : a.id = b.id => a = b
OnlyAsked == \A a \in hist[2] : \E h \in hist[1] : h.id = a.id
Right == \A a \in hist[2], h \in hist[1] : h.id = a.id => (h.at = "after") = (a.outcome = InvalidRequest)
Answered == \A id \in 1..3 : (id \in {h.id : h \in hist[1]}) ~> (id \in {a.id : a \in hist[2]})
=============================================================================
