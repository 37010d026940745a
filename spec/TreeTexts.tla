----------------------------- MODULE TreeTexts ------------------------------
(* Texts of the constant of TreeGen (sequences do not fit into a configuration). *)
EXTENDS TreeGen
Small == {<<>>, <<97>>, <<233>>, <<97, 233>>}
=============================================================================
