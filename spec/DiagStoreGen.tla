---------------------------- MODULE DiagStoreGen ----------------------------
(* All histories of a store up to a depth; the caller's observations follow from the specification
   where it is deterministic (what is shown), and are bounded by it where it is not (what is taken). *)
EXTENDS DiagStore, TLC, Json
CONSTANTS Depth, Diags, Lists
\* a and b are the same diagnostic but for the id; the others differ in one component each
D(id, msg, src, sev, l) == [id |-> id, msg |-> msg, src |-> src, sev |-> sev, l |-> l, c |-> 0, el |-> l, ec |-> 1]
DiagsDef == {D("a", "m", "s", 1, 0), D("b", "m", "s", 1, 0), D("c", "m", "s", 1, 3)}
DiagsTwo == {D("a", "m", "s", 1, 0), D("c", "m", "s", 1, 3)}
DiagsWide == DiagsDef \cup {D("d", "m", "s", 2, 0), D("e", "n", "s", 1, 0), D("f", "m", "t", 1, 0)}
ListsOf(ds) == {<<>>} \cup {<<d>> : d \in ds}
ListsDef == ListsOf(DiagsDef) \cup {<<D("a", "m", "s", 1, 0), D("c", "m", "s", 1, 3)>>, <<D("c", "m", "s", 1, 3), D("a", "m", "s", 1, 0)>>}
ListsTwo == ListsOf(DiagsTwo)
ListsWide == ListsOf(DiagsWide) \cup {<<D("a", "m", "s", 1, 0), D("a", "m", "s", 1, 0)>>}
VARIABLE hist
gvars == <<native, set, check, must, may, reported, hist>>
Ids(s) == [i \in 1..Len(s) |-> s[i].id]
FileNum(f) == f
Obs == [shown |-> [f \in 1..Cardinality(Files) |-> Ids(ShownNext(f - 1))], must |-> must', may |-> may']
GInit == Init /\ hist = <<>>
\* taking everything that may be taken: other choices are explored by TLC on the property alone
GNext ==
  /\ Len(hist) < Depth
  /\ \/ \E f \in Files, ds \in Lists : SetNative(f, ds) /\ hist' = Append(hist, [op |-> [op |-> "native", f |-> f, ds |-> ds], obs |-> Obs])
     \/ \E f \in Files, d \in Diags : AddCheck(f, d) /\ hist' = Append(hist, [op |-> [op |-> "check", f |-> f, d |-> d], obs |-> Obs])
     \/ ClearCheck /\ hist' = Append(hist, [op |-> [op |-> "clear"], obs |-> Obs])
     \/ Take(may) /\ hist' = Append(hist, [op |-> [op |-> "take"], obs |-> Obs @@ [atleast |-> must, atmost |-> may]])
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(hist) = Depth => PrintT(ToJson(hist))
ANext == \/ \E f \in Files, ds \in Lists : SetNative(f, ds)
         \/ \E f \in Files, d \in Diags : AddCheck(f, d)
         \/ ClearCheck \/ \E t \in SUBSET Files : Take(t)
ASpec == GInit /\ [][ANext /\ UNCHANGED hist]_gvars
Small == \A f \in Files : Len(check[f]) <= 3
=============================================================================
