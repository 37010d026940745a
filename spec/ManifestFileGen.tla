-------------------------- MODULE ManifestFileGen ---------------------------
(* All small manifests, with what they say. *)
EXTENDS ManifestFile, TLC, Json
CONSTANTS Keys, Kinds, Names, MaxItems
VARIABLE doc
Init == doc = <<>>
Next == Len(doc) < MaxItems /\ \E it \in [t : Names] \cup [k : Keys, v : Kinds] : doc' = Append(doc, it)
Spec == Init /\ [][Next]_doc
\* items of other tables do not matter; the order of pairs within a table does not
Others == Loads(doc) => \A f \in Fields : Field(doc, f) # 0 => doc[Field(doc, f)].v = "string"
Order == \A i \in 1..(Len(doc) - 1) :
  (~IsTable(doc[i]) /\ ~IsTable(doc[i + 1])) =>
    LET swapped == [doc EXCEPT ![i] = doc[i + 1], ![i + 1] = doc[i]]
    IN /\ Loads(doc) = Loads(swapped)
       /\ Loads(doc) => \A f \in Fields : (Field(doc, f) = 0) = (Field(swapped, f) = 0)
Emit == Lenient(doc) \/ PrintT(ToJson([doc |-> doc, means |-> Meaning(doc)]))
KeysDef == {"name", "dialect", "extra"}
KeysAll == Fields \cup {"extra", "package"}
=============================================================================
