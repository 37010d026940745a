---------------------------- MODULE SnapshotsGen ----------------------------
(* Schedules of snapshots and changes, with the answers that are right at each point. *)
EXTENDS Snapshots, TLC, Json
CONSTANTS Depth, MaxChanges
VARIABLE hist
gvars == <<now, snap, writer, hist>>
Log(x) == hist' = Append(hist, x)
GInit == SInit /\ hist = <<>>
GNext ==
  /\ Len(hist) < Depth
  /\ \/ \E s \in Snaps : Take(s) /\ Log([do |-> "take", s |-> s])
     \/ \E s \in Snaps : Ask(s) /\ Log([do |-> "ask", s |-> s])
     \/ \E s \in Snaps : /\ snap[s].st = "asking" /\ snap' = [snap EXCEPT ![s].st = "held"] /\ UNCHANGED <<now, writer>>
                         /\ Log([do |-> "answer", s |-> s, at |-> snap[s].at, cancel |-> writer = "waiting"])
     \/ \E s \in Snaps : Drop(s) /\ Log([do |-> "drop", s |-> s])
     \/ now < MaxChanges /\ Begin /\ Log([do |-> "begin"])
     \/ Finish /\ Log([do |-> "finish"])
GSpec == GInit /\ [][GNext]_gvars
Bounded == now <= MaxChanges
Perms == {p \in [Snaps -> Snaps] : \A s, t \in Snaps : s # t => p[s] # p[t]}
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
=============================================================================
