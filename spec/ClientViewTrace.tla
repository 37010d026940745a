--------------------------- MODULE ClientViewTrace --------------------------
(* Recordings of the real server are judged by what the editor sees.
   A line is {ev: open|change|close|pub|quiet, d, v, t, ts, strict}. *)
EXTENDS ClientView, TLC, Json, IOUtils
CONSTANT Property   \* "P01" or "P02"
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES t, l
tvars == <<open, text, texts, last, shown, t, l>>
TInit == CInit /\ t \in 1..Len(Traces) /\ l = 1
Line == Traces[t][l]
Range(s) == {s[i] : i \in 1..Len(s)}
TNext ==
  /\ l <= Len(Traces[t]) /\ l' = l + 1 /\ t' = t
  /\ \/ Line.ev = "open" /\ COpen(Line.d, Line.v, Line.t)
     \/ Line.ev = "change" /\ CChange(Line.d, Line.v, Line.t)
     \/ Line.ev = "close" /\ CClose(Line.d)
     \/ /\ Line.ev = "pub"
        /\ Property = "P02" => /\ Describes(Line.d, Line.v, Range(Line.ts))
                               /\ Line.strict => Forward(Line.d, Line.v) /\ Versioned(Line.d, Line.v)
        /\ CPublish(Line.d, Line.v, Range(Line.ts))
     \/ /\ Line.ev = "quiet"
        /\ Property = "P01" => \A d \in open : Right(d)
        /\ UNCHANGED cvars
TSpec == TInit /\ [][TNext]_tvars
Accept == l = Len(Traces[t]) + 1 => PrintT(ToJson([accepted |-> t]))
At == PrintT(ToJson([at |-> t, line |-> l])) \/ TRUE
=============================================================================
