---------------------------- MODULE LifecycleGen ----------------------------
(* All lives of a process up to a number of messages, with what the editor is sent. *)
EXTENDS Lifecycle, TLC, Json
CONSTANT Depth
VARIABLE hist
EncodingsDef == {{}, {"utf-8"}, {"utf-16"}, {"utf-16", "utf-8"}}
RECURSIVE SetSeq(_)
SetSeq(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE m \in s : TRUE IN <<m>> \o SetSeq(s \ {m})
Log(e) == hist' = Append(hist, e)
GInit == LInit /\ hist = <<>>
GNext ==
  /\ Len(hist) < Depth \/ phase # "ended"
  /\ \/ /\ Len(hist) < Depth - 1
        /\ \/ \E e \in Encodings, dyn \in BOOLEAN, save \in BOOLEAN :
                 /\ Initialize(e, dyn, save)
                 /\ Log([do |-> "initialize", encodings |-> SetSeq(e), dyn |-> dyn, save |-> save, expect |-> IF "utf-8" \in e THEN "bytes" ELSE "units"])
           \/ Initialized /\ Log([do |-> "initialized", expect |-> IF saves THEN "registers" ELSE "nothing"])
           \/ Early /\ Log([do |-> "request", expect |-> "not-initialized"])
           \/ Unknown /\ Log([do |-> "request", expect |-> IF phase = "down" THEN "invalid" ELSE "not-found"])
           \/ Note /\ Log([do |-> "note", expect |-> "nothing"])
           \/ \E ok \in BOOLEAN : Reply /\ Log([do |-> "reply", ok |-> ok, expect |-> "nothing"])
           \/ phase = "running" /\ Note /\ Log([do |-> "open", expect |-> IF utf8 THEN "bytes" ELSE "units"])
           \/ Shutdown /\ Log([do |-> "shutdown", expect |-> "null"])
     \/ Exit /\ Log([do |-> "exit", expect |-> status'])
     \/ Vanish /\ Log([do |-> "vanish", expect |-> status'])
GSpec == GInit /\ [][GNext]_<<phase, utf8, saves, owes, status, hist>>
ExitProper == status = "zero" => hist[Len(hist)].do = "exit" /\ \E i \in 1..Len(hist) : hist[i].do = "shutdown"
Emit == phase = "ended" => PrintT(ToJson(hist))
=============================================================================
