----------------------------- MODULE PathsCases -----------------------------
(* Recorded results of path operations (random longer paths) are those of PathOps. *)
EXTENDS PathOps, Cases
Judge == LET c == Cases[k]
         IN \/ c.got = Observations(c.s, c.rels, c.bases)
            \/ PrintT(ToJson([bad |-> k, expected |-> Observations(c.s, c.rels, c.bases)]))
=============================================================================
