------------------------------ MODULE DiagStore -----------------------------
(***************************************************************************)
(* The store of diagnostics per file: native ones (replaced as a whole) and *)
(* those of an external checker (added one by one, cleared together), and   *)
(* the files reported as changed.  Mirrors                                   *)
(* crates/move_language_server/src/diagnostics.rs.                           *)
(* A diagnostic is [id, ...]; Same(a, b) ignores the id.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Files
VARIABLES native,   \* [Files -> sequence of diagnostics]
          set,      \* files whose native diagnostics were ever set
          check,    \* [Files -> sequence of diagnostics]
          must,     \* files whose diagnostics differ from those last reported
          may,      \* files touched by an effective update since the last report
          reported  \* [Files -> diagnostics when the file was last reported]
vars == <<native, set, check, must, may, reported>>
Key(d) == [src |-> d.src, sev |-> d.sev, msg |-> d.msg, at |-> <<d.l, d.c, d.el, d.ec>>]
Same(a, b) == Key(a) = Key(b)
SameAll(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Same(s[i], t[i])
Shown(f) == native[f] \o check[f]
ShownNext(f) == native'[f] \o check'[f]
Init == /\ native = [f \in Files |-> <<>>] /\ set = {} /\ check = [f \in Files |-> <<>>]
        /\ must = {} /\ may = {} /\ reported = [f \in Files |-> <<>>]
\* what has to be reported, given the contents after the step
Differing == {f \in Files : ~SameAll(ShownNext(f), reported'[f])}
SetNative(f, ds) ==
  LET effective == f \notin set \/ ~SameAll(native[f], ds) IN
  /\ set' = set \cup {f}
  /\ native' = IF effective THEN [native EXCEPT ![f] = ds] ELSE native
  /\ may' = IF effective THEN may \cup {f} ELSE may
  /\ UNCHANGED <<check, reported>>
  /\ must' = Differing
AddCheck(f, d) ==
  LET known == \E i \in 1..Len(check[f]) : Same(check[f][i], d) IN
  /\ check' = IF known THEN check ELSE [check EXCEPT ![f] = Append(@, d)]
  /\ may' = IF known THEN may ELSE may \cup {f}
  /\ UNCHANGED <<native, set, reported>>
  /\ must' = Differing
ClearCheck ==
  /\ may' = may \cup {f \in Files : check[f] # <<>>}
  /\ check' = [f \in Files |-> <<>>]
  /\ UNCHANGED <<native, set, reported>>
  /\ must' = Differing
\* the files reported are some set between `must` and `may`
Take(taken) ==
  /\ must \subseteq taken /\ taken \subseteq may
  /\ reported' = [f \in Files |-> IF f \in taken THEN Shown(f) ELSE reported[f]]
  /\ may' = {} /\ UNCHANGED <<native, set, check>>
  /\ must' = Differing
(* the property (P22), of every state *)
Bounded == must \subseteq may
Distinct == \A f \in Files : \A i, j \in 1..Len(check[f]) : Same(check[f][i], check[f][j]) => i = j
TakenEmpties == must \subseteq may
=============================================================================
