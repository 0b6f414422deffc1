-------------------------------- MODULE CStr --------------------------------
(* std::c_str: functions on null-terminated buffers.  Every operation is a   *)
(* function of its arguments, except strtok, which remembers where it        *)
(* stopped.  Buffers are shown with some bytes after the terminator, which   *)
(* have to keep the filler 0xEE (238) they started with.                     *)
EXTENDS Text

Start(cfg) == [rest |-> NilStr]
Ret(s, v) == { [s |-> s, r |-> <<v>>] }
Fill(n) == [i \in 1..n |-> 238]
(* a buffer of n bytes that starts as text, terminator, filler *)
Buf(t, n) == t \o <<0>> \o Fill(n - Len(t) - 1)
Over(b, o, c) == [i \in 1..Len(b) |-> IF i > o /\ i <= o + Len(c) THEN c[i - o] ELSE b[i]]
Pre(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Sign(x, S) == { [s |-> S, r |-> <<x>>] }

Post(e, s) ==
  LET a == e.a IN
  CASE e.op = "strlen"  -> Ret(s, Len(a[1]))
    [] e.op = "strnlen" -> Ret(s, Min2(Len(a[1]), a[2]))
    [] e.op \in {"copy", "strcpy"} -> Ret(s, Over(Fill(a[2]), 0, a[1] \o <<0>>))
    [] e.op = "strncpy" -> (* exactly n bytes, padded with zeros *)
         Ret(s, Over(Fill(a[3]), 0, Pre(a[1], a[2]) \o [i \in 1..(a[2] - Min2(a[2], Len(a[1]))) |-> 0]))
    [] e.op = "strcat"  -> Ret(s, Over(Buf(a[1], a[3]), 0, a[1] \o a[2] \o <<0>>))
    [] e.op = "strncat" -> Ret(s, Over(Buf(a[1], a[4]), 0, a[1] \o Pre(a[2], a[3]) \o <<0>>))
    [] e.op = "strcmp"  -> Ret(s, Compare(a[1], a[2]))
    [] e.op = "strncmp" -> Ret(s, Compare(Pre(a[1], a[3]), Pre(a[2], a[3])))
    [] e.op = "strstr"  -> Ret(s, Find(a[1], a[2]))
    [] e.op = "strspn"  -> Ret(s, Span(a[1], Rng(a[2])))
    [] e.op = "strcspn" -> Ret(s, Span(a[1], (1..255) \ Rng(a[2])))
    [] e.op = "strchr"  -> Ret(s, IF a[2] = 0 THEN Len(a[1]) ELSE FindByte(a[1], a[2]))
    [] e.op = "strrchr" -> Ret(s, IF a[2] = 0 THEN Len(a[1]) ELSE FindLast(a[1], a[2]))
    [] e.op = "strpbrk" -> LET n == Span(a[1], (1..255) \ Rng(a[2])) IN Ret(s, IF n = Len(a[1]) THEN -1 ELSE n)
    [] e.op = "strsep"  -> Ret(s, Split(a[1], Rng(a[2])))
    [] e.op = "strtok"  -> (* a new text *)
         LET n == Span(a[1], Rng(a[2]))  t == Sub(a[1], n, Len(a[1]))  k == Span(t, (1..255) \ Rng(a[2])) IN
         IF t = <<>> THEN { [s |-> [rest |-> <<>>], r |-> <<NilStr>>] }
         ELSE { [s |-> [rest |-> IF k = Len(t) THEN <<>> ELSE Sub(t, k + 1, Len(t))], r |-> <<Sub(t, 0, k)>>] }
    [] e.op = "strtokn" -> (* the next token of the last text *)
         LET n == Span(s.rest, Rng(a[1]))  t == Sub(s.rest, n, Len(s.rest))  k == Span(t, (1..255) \ Rng(a[1])) IN
         IF t = <<>> THEN { [s |-> [rest |-> <<>>], r |-> <<NilStr>>] }
         ELSE { [s |-> [rest |-> IF k = Len(t) THEN <<>> ELSE Sub(t, k + 1, Len(t))], r |-> <<Sub(t, 0, k)>>] }
    [] e.op = "memchr"  -> Ret(s, FindByte(Pre(a[1], a[3]), a[2]))
    [] e.op = "rawmemchr" -> Ret(s, IF a[2] = 0 THEN Len(a[1]) ELSE FindByte(a[1], a[2]))
    [] e.op = "reverse" -> Ret(s, Reverse(a[1]))
    [] e.op = "fromint" -> Ret(s, IF a[2] = 10 THEN SNumeral(a[1]) ELSE UNumeral(a[1], a[2]))
    [] e.op = "fromuint" -> Ret(s, UNumeral(a[1], a[2]))
    [] e.op = "frombool" -> Ret(s, IF a[1] = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>)
    [] e.op = "toi32"   -> Ret(s, Low32(ReadInt(a[1])))
    [] e.op = "toi64"   -> Ret(s, ReadInt(a[1]))
    [] e.op = "float"   -> (* numerator a[1] over 2^a[2], a[3] decimals, f32 or f64 *)
         Ret(s, Decimal(a[1], a[2], a[3]))
    [] e.op = "class"   -> (* the character predicates, tolower, toupper and toascii of one code *)
         LET c == a[1]  Of(S) == IF c \in S THEN 1 ELSE 0 IN
         Ret(s, << Of(Alpha \cup Digits), Of(Alpha), Of(0..127), Of({32, 9}), Of((0..31) \cup {127}), Of(Digits), Of(33..126), Of(Lower),
                   Of(32..126), Of((33..126) \ (Alpha \cup Digits)), Of(Space), Of(Upper), c % 128,
                   IF c \in Upper THEN c + 32 ELSE c, IF c \in Lower THEN c - 32 ELSE c >>)

Enabled(e, s) == e.op # "strtokn" \/ s.rest # NilStr
Inv(s) == s.rest = NilStr \/ \A i \in 1..Len(s.rest) : s.rest[i] \in 1..255
=============================================================================
