---------------------------- MODULE ManifestFile ----------------------------
(***************************************************************************)
(* What a Dove.toml says.  A document is a sequence of items: tables        *)
(* [t |-> name] and pairs [k |-> key, v |-> kind of value].  Mirrors         *)
(* dove_toml.rs and workspace.rs in crates/project_model.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
Fields == {"name", "account_address", "dove_version", "dialect"}

IsTable(it) == "t" \in DOMAIN it
RECURSIVE TableAt(_, _)
TableAt(doc, i) == IF i = 0 THEN "" ELSE IF IsTable(doc[i]) THEN doc[i].t ELSE TableAt(doc, i - 1)
Pairs(doc) == {i \in 1..Len(doc) : ~IsTable(doc[i])}
Tables(doc) == {i \in 1..Len(doc) : IsTable(doc[i])}
Duplicate(doc) ==
  \/ \E i, j \in Tables(doc) : i # j /\ doc[i].t = doc[j].t
  \/ \E i, j \in Pairs(doc) : i # j /\ TableAt(doc, i) = TableAt(doc, j) /\ doc[i].k = doc[j].k
  \* a key outside any table with the name of a table
  \/ \E i \in Pairs(doc), j \in Tables(doc) : TableAt(doc, i) = "" /\ doc[i].k = doc[j].t
InPackage(doc) == {i \in Pairs(doc) : TableAt(doc, i) = "package"}
\* only strings are accepted for the known fields
IllTyped(doc) == \E i \in InPackage(doc) : doc[i].k \in Fields /\ doc[i].v # "string"
HasPackage(doc) == \E i \in Tables(doc) : doc[i].t = "package"
\* duplicates among what is read
Ambiguous(doc) ==
  \/ \E i, j \in Tables(doc) : i # j /\ doc[i].t = doc[j].t /\ doc[i].t = "package"
  \/ \E i, j \in InPackage(doc) : i # j /\ doc[i].k = doc[j].k /\ doc[i].k \in Fields
  \/ \E i \in Pairs(doc) : TableAt(doc, i) = "" /\ doc[i].k = "package"
Loads(doc) == ~Ambiguous(doc) /\ ~IllTyped(doc) /\ HasPackage(doc)
\* whether TOML libraries complain of duplicates among what nobody reads is up to them
Lenient(doc) == Loads(doc) /\ Duplicate(doc)
\* the items that give the fields (0: the field is absent)
Field(doc, f) == LET is == {i \in InPackage(doc) : doc[i].k = f} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
Meaning(doc) == IF Loads(doc) THEN <<[f \in Fields |-> Field(doc, f)]>> ELSE <<>>
=============================================================================
