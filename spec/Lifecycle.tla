------------------------------ MODULE Lifecycle -----------------------------
(***************************************************************************)
(* The life of the server process, as the editor sees it over its pipes.    *)
(* Mirrors bin/move_language_server.rs, run() in main_loop.rs and the       *)
(* handshake of the lsp-server crate.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Encodings   \* what the editor may say about position encodings: set of sets of names
VARIABLES phase,   \* "start", "greeted" (initialize answered), "running", "down" (after shutdown), "ended"
          utf8,    \* the negotiated unit is bytes
          saves,   \* the editor can register for save notifications
          owes,    \* the editor has not answered the registration yet
          status   \* how the process ended: "-", "zero", "other"
lvars == <<phase, utf8, saves, owes, status>>
LInit == phase = "start" /\ utf8 = FALSE /\ saves = FALSE /\ owes = FALSE /\ status = "-"
End(s) == phase' = "ended" /\ status' = s /\ UNCHANGED <<utf8, saves, owes>>
\* what is sent to the editor for the message
Initialize(encs, dyn, save) ==
  /\ phase = "start"
  /\ phase' = "greeted" /\ utf8' = ("utf-8" \in encs) /\ saves' = (dyn /\ save) /\ UNCHANGED <<owes, status>>
Initialized == phase = "greeted" /\ phase' = "running" /\ owes' = saves /\ UNCHANGED <<utf8, saves, status>>
\* the editor accepts the registration, or does not; nothing else depends on it
Reply == owes /\ phase \in {"running", "down"} /\ owes' = FALSE /\ UNCHANGED <<phase, utf8, saves, status>>
Early == phase = "start" /\ UNCHANGED lvars           \* a request before initialize: an error
Unknown == phase \in {"running", "down"} /\ UNCHANGED lvars
Note == phase \in {"running", "down"} /\ UNCHANGED lvars
Shutdown == phase = "running" /\ phase' = "down" /\ UNCHANGED <<utf8, saves, owes, status>>
Exit == phase # "ended" /\ End(IF phase = "down" THEN "zero" ELSE "other")
Vanish == phase # "ended" /\ End("other")
(* the property P04 *)
Zero == status = "zero" => phase = "ended"
=============================================================================
