--------------------------- MODULE DirFilterCases ---------------------------
(* Recorded answers of random filters, and of the standard ones, are those of DirFilter. *)
EXTENDS DirFilter, Cases
Lists(c) == IF c.standard = "no" THEN [include |-> c.include, exclude |-> c.exclude]
            ELSE Standard(c.base, StandardNames[c.standard])
Ok(c) == LET l == Lists(c) IN
  /\ \A i \in 1..Len(c.dirs) : c.dirs[i].got = Selected(c.dirs[i].path, l.include, l.exclude)
  /\ \A i \in 1..Len(c.files) :
       c.files[i].got = SelectedFile(c.files[i].path, c.files[i].ext, c.extensions, l.include, l.exclude)
Judge == Ok(Cases[k]) \/ PrintT(ToJson([bad |-> k, expected |-> Lists(Cases[k])]))
=============================================================================
