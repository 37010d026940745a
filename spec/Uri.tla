--------------------------------- MODULE Uri --------------------------------
(***************************************************************************)
(* Which document a URI names.  A URI is a sequence of code points; the      *)
(* document it names is the absolute path it denotes, a sequence of non-     *)
(* empty components of bytes.  Doc(u) is <<path>>, or <<>> if u names none   *)
(* (another scheme, another host, no URI at all).                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS FileScheme, Localhost   \* their code points
FileSchemeDef == <<102, 105, 108, 101>>
LocalhostDef == <<108, 111, 99, 97, 108, 104, 111, 115, 116>>
Percent == 37
Dot == 46
Slash == 47
Slashes == {47, 92}
Ends == {63, 35}          \* ? and #

Digit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 16
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerAll(s) == [i \in 1..Len(s) |-> Lower(s[i])]
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* the position before the first of the characters cs
Before(s, cs) == CHOOSE n \in 0..Len(s) : (n = Len(s) \/ s[n + 1] \in cs) /\ \A i \in 1..n : s[i] \notin cs
RECURSIVE Split(_, _)
Split(s, cs) == LET n == Before(s, cs) IN IF n = Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, n)>> \o Split(Drop(s, n + 1), cs)

\* the bytes of a piece of text: %xx is a byte, everything else is itself
Escape(s) == Len(s) >= 3 /\ s[1] = Percent /\ Digit(s[2]) < 16 /\ Digit(s[3]) < 16
RECURSIVE Bytes(_)
Bytes(s) == IF s = <<>> THEN <<>>
            ELSE IF Escape(s) THEN <<16 * Digit(s[2]) + Digit(s[3])>> \o Bytes(Drop(s, 3))
            ELSE Utf8(s[1]) \o Bytes(Tail(s))
\* dots count as such even when they are escaped; escaped slashes do not separate segments
Dots(segment) == LET b == Bytes(segment) IN IF b = <<Dot>> THEN 1 ELSE IF b = <<Dot, Dot>> THEN 2 ELSE 0
RECURSIVE Resolve(_, _)
Resolve(segments, done) ==
  IF segments = <<>> THEN done
  ELSE LET d == Dots(segments[1]) IN
       Resolve(Tail(segments), IF d = 1 THEN done
                               ELSE IF d = 2 THEN (IF done = <<>> THEN done ELSE SubSeq(done, 1, Len(done) - 1))
                               ELSE Append(done, segments[1]))
\* in the path an escaped slash is a slash, and repeated ones and single dots mean nothing
RECURSIVE Components(_)
Components(segments) ==
  IF segments = <<>> THEN <<>>
  ELSE SelectSeq(Split(Bytes(segments[1]), {Slash}), LAMBDA c : c # <<>> /\ c # <<Dot>>) \o Components(Tail(segments))
\* the path that begins at the beginning of s, with or without a slash
Path(s) == LET r == IF s # <<>> /\ s[1] \in Slashes THEN Tail(s) ELSE s IN
           Components(Resolve(Split(SubSeq(r, 1, Before(r, Ends)), Slashes), <<>>))

Doc(u) ==
  IF ~Starts(LowerAll(u), FileScheme \o <<58>>) THEN <<>>
  ELSE LET s == Drop(u, Len(FileScheme) + 1) IN
       IF Len(s) >= 2 /\ s[1] \in Slashes /\ s[2] \in Slashes
       THEN LET r == Drop(s, 2)  n == Before(r, Slashes \cup Ends)  host == LowerAll(SubSeq(r, 1, n)) IN
            IF host = <<>> \/ host = Localhost THEN <<Path(Drop(r, n))>> ELSE <<>>
       ELSE <<Path(s)>>
\* left open: what an escaped slash next to two dots means
InScope(u) == Doc(u) = <<>> \/ \A i \in 1..Len(Doc(u)[1]) : Doc(u)[1][i] # <<Dot, Dot>>

\* one way to write a path
Hex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
RECURSIVE WriteComp(_)
WriteComp(c) == IF c = <<>> THEN <<>>
                ELSE (IF c[1] \in 97..122 THEN <<c[1]>> ELSE <<Percent, Hex(c[1] \div 16), Hex(c[1] % 16)>>) \o WriteComp(Tail(c))
RECURSIVE WritePath(_)
WritePath(p) == IF p = <<>> THEN <<>> ELSE <<Slash>> \o WriteComp(p[1]) \o WritePath(Tail(p))
Write(p) == FileScheme \o <<58, Slash, Slash>> \o WritePath(p)
(* laws *)
WrittenIsRead(u) == (Doc(u) # <<>> /\ InScope(u)) => Doc(Write(Doc(u)[1])) = Doc(u)
=============================================================================
