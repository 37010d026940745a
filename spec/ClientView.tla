----------------------------- MODULE ClientView -----------------------------
(***************************************************************************)
(* What an editor can tell about the diagnostics it is sent: the texts it   *)
(* gave for every version of a document, and the publications it received.  *)
(* A publication comes with the set of texts whose diagnostics it shows.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Docs
VARIABLES open, text, texts, last, shown
\* texts[d]: function from versions to texts;  last[d]: <<>> or <<version last published>>, since the
\* document was opened;  shown[d]: <<>> or <<set of texts that the last publication describes>>
cvars == <<open, text, texts, last, shown>>
NoText == "-"
CInit == /\ open = {} /\ text = [d \in Docs |-> NoText] /\ texts = [d \in Docs |-> <<>>]
         /\ last = [d \in Docs |-> <<>>] /\ shown = [d \in Docs |-> <<>>]
Extend(f, v, t) == [x \in (DOMAIN f) \cup {v} |-> IF x = v THEN t ELSE f[x]]
COpen(d, v, t) ==
  /\ open' = open \cup {d} /\ text' = [text EXCEPT ![d] = t]
  /\ texts' = [texts EXCEPT ![d] = Extend(@, v, t)] /\ last' = [last EXCEPT ![d] = <<>>]
  /\ UNCHANGED shown
CChange(d, v, t) ==   \* only a document that is open can change
  /\ IF d \in open
     THEN text' = [text EXCEPT ![d] = t] /\ texts' = [texts EXCEPT ![d] = Extend(@, v, t)]
     ELSE UNCHANGED <<text, texts>>
  /\ UNCHANGED <<open, last, shown>>
CClose(d) == open' = open \ {d} /\ last' = [last EXCEPT ![d] = <<>>] /\ UNCHANGED <<text, texts, shown>>
\* a publication, with or without version; `order` tells if it is known where in the history it was made
CPublish(d, v, ts) ==
  /\ shown' = [shown EXCEPT ![d] = <<ts>>]
  /\ last' = IF v = <<>> \/ d \notin open THEN last ELSE [last EXCEPT ![d] = v]
  /\ UNCHANGED <<open, text, texts>>
(* P02, for a publication: *)
Describes(d, v, ts) == v # <<>> => v[1] \in DOMAIN texts[d] /\ texts[d][v[1]] \in ts
Forward(d, v) == v # <<>> /\ last[d] # <<>> => v[1] >= last[d][1]
Versioned(d, v) == (d \in open) = (v # <<>>)
(* P01, when nothing is left to be done: *)
Right(d) == shown[d] # <<>> /\ text[d] \in shown[d][1]
=============================================================================
