------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* The requests of the editor and the answers of the server.  Mirrors       *)
(* on_request, on_notification, respond and cancel in main_loop.rs and      *)
(* global_state.rs, and dispatch.rs.                                        *)
(* What becomes of a request is settled when the server takes it, in the    *)
(* order of sending; the answer may come later.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES down,     \* shutdown was asked for
          pending   \* set of [id, outcome]: requests without an answer
rvars == <<down, pending>>

InvalidRequest == -32600
NotFound == -32601
InvalidParams == -32602
Null == 0   \* the outcome "result null"

\* method is "shutdown" or another, params are null or not
Outcome(method, params) ==
  IF down THEN InvalidRequest
  ELSE IF method # "shutdown" THEN NotFound
  ELSE IF params # "null" THEN InvalidParams
  ELSE Null

RInit == down = FALSE /\ pending = {}
Ids == {p.id : p \in pending}
Ask(id, method, params) ==
  /\ pending' = pending \cup {[id |-> id, outcome |-> Outcome(method, params)]}
  /\ down' = (down \/ Outcome(method, params) = Null)
\* a notification, of whatever kind (also $/cancelRequest for an id without request)
Notify == UNCHANGED rvars
\* an answer to a request of the server's own
Reply == UNCHANGED rvars
Answer(id, outcome) ==
  /\ [id |-> id, outcome |-> outcome] \in pending
  /\ pending' = {p \in pending : p.id # id}
  /\ UNCHANGED down
Quiet == pending = {} /\ UNCHANGED rvars
=============================================================================
