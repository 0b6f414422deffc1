-------------------------------- MODULE Fmt --------------------------------
(* std::fmt, std::io and std::error: what a format string makes of its       *)
(* arguments, where the output functions put it, and the current error.      *)
(* The object is the current error: its kind and message (NilStr for none).  *)
EXTENDS Text

Start(cfg) == [kind |-> 0, msg |-> NilStr]
Ret(s, v) == { [s |-> s, r |-> v] }
Bit(b) == IF b THEN 1 ELSE 0

(* an argument: [w |-> word, s |-> text], both there, the directive chooses *)
Text1(c) == \* the escaped form of a character; more than one for the characters whose escaping is left open
  CASE c = 7 -> {<<92, 97>>} [] c = 8 -> {<<92, 98>>} [] c = 9 -> {<<92, 116>>} [] c = 11 -> {<<92, 118>>}
    [] c = 10 -> {<<92, 110>>} [] c = 13 -> {<<92, 114>>} [] c = 12 -> {<<92, 102>>} [] c = 0 -> {<<92, 48>>}
    [] c = 39 -> {<<92, 39>>} [] c \in {34, 92} -> {<<c>>, <<92, c>>} [] OTHER -> {<<c>>}
Cat(P, Q) == { p \o q : p \in P, q \in Q }
RECURSIVE Literal(_)
Literal(t) == IF t = <<>> THEN {<<>>} ELSE Cat(Text1(Head(t)), Literal(Tail(t)))
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
NilText == <<40, 110, 105, 108, 41>>
Octal(w) == UNumeral(w, 8)
Low32U(w) == <<w[1], w[2], w[3], w[4], 0, 0, 0, 0>>

(* the names std::error gives its kinds; the others are "<unknown>" *)
KindText(k) == LET a == IF k < 0 THEN -k ELSE k IN
  CASE a = 0 -> <<110, 111, 110, 101>>                                                                     \* none
    [] a = 22 -> <<105, 110, 118, 97, 108, 105, 100>>                                                       \* invalid
    [] a = 5 -> <<105, 110, 112, 117, 116, 47, 111, 117, 116, 112, 117, 116>>                               \* input/output
    [] a = 9 -> <<98, 97, 100, 32, 102, 105, 108, 101, 32, 100, 101, 115, 99, 114, 105, 112, 116, 111, 114>> \* bad file descriptor
    [] a = 20 -> <<110, 111, 116, 32, 97, 32, 100, 105, 114, 101, 99, 116, 111, 114, 121>>                  \* not a directory
    [] a = 10 -> <<99, 104, 105, 108, 100>>                                                                 \* child
    [] a = 134 -> <<110, 105, 108, 32, 112, 111, 105, 110, 116, 101, 114>>                                  \* nil pointer
    [] a = 135 -> <<105, 110, 100, 101, 120, 32, 111, 117, 116, 32, 111, 102, 32, 98, 111, 117, 110, 100, 115>> \* index out of bounds
    [] a = 136 -> <<102, 97, 105, 108, 101, 100, 32, 97, 115, 115, 101, 114, 116, 105, 111, 110>>           \* failed assertion
    [] OTHER -> <<60, 117, 110, 107, 110, 111, 119, 110, 62>>
ErrorText(k, m) == KindText(k) \o (IF m = NilStr THEN <<>> ELSE <<58, 32>> \o m)

(* The possible results of formatting.  ints: the word arguments in order,
   floats: the float arguments in order, each <<numerator, halvings>>; err: the current error *)
RECURSIVE Format(_, _, _, _)
Format(f, ints, floats, err) ==
  IF f = <<>> THEN {<<>>}
  ELSE IF Head(f) # 37 THEN Cat({<<Head(f)>>}, Format(Tail(f), ints, floats, err))
  ELSE IF Len(f) = 1 THEN {<<37>>}
  ELSE LET d == f[2]  rest == SubSeq(f, 3, Len(f))
           DoI(T) == Cat(T, Format(rest, Tail(ints), floats, err))
           DoF(T) == Cat(T, Format(rest, ints, Tail(floats), err))
           DoS(T) == Cat(T, Format(rest, ints, floats, err))
       IN CASE d = 37 -> DoS({<<37>>})
            [] d = 105 -> DoI({SNumeral(Low32(Head(ints).w))})        \* i
            [] d = 117 -> DoI({UNumeral(Low32U(Head(ints).w), 10)})   \* u
            [] d = 85 -> DoI({UNumeral(Head(ints).w, 10)})            \* U
            [] d = 108 -> DoI({SNumeral(Head(ints).w)})               \* l
            [] d = 111 -> DoI({Octal(Head(ints).w)})                  \* o
            [] d = 120 -> DoI({UNumeral(Head(ints).w, 16)})           \* x
            [] d = 98 -> DoI({IF Head(ints).w[1] # 0 THEN True ELSE False}) \* b
            [] d = 112 -> DoI({<<48, 120>> \o UNumeral(Head(ints).w, 16)})  \* p
            [] d = 99 -> DoI({<<Head(ints).w[1]>>})                   \* c
            [] d = 67 -> DoI(Text1(Head(ints).w[1]))                  \* C
            [] d = 115 -> DoI({IF Head(ints).s = NilStr THEN NilText ELSE Head(ints).s})         \* s
            [] d = 83 -> DoI(IF Head(ints).s = NilStr THEN {NilText} ELSE Literal(Head(ints).s)) \* S
            [] d = 102 -> DoF({Decimal(Head(floats)[1], Head(floats)[2], 10)})                    \* f
            [] d = 100 -> DoF({Decimal(Head(floats)[1], Head(floats)[2], 20)})                    \* d
            [] d = 69 -> DoS({ErrorText(err.kind, err.msg)})         \* E
            [] d = 110 -> {<<-2>>}                                    \* n: nothing at all comes out
            [] OTHER -> DoS({<<37, d>>})
Cut(T) == { IF -2 \in Rng(t) THEN <<>> ELSE t : t \in T }
Formatted(f, ints, floats, err) == Cut(Format(f, ints, floats, err))

(* time points: year, month, day, hour, minute, second, unix seconds *)
Two(n) == IF n < 10 THEN <<48, 48 + n>> ELSE INumeral(n)
RECURSIVE TimeText(_, _)
TimeText(f, t) ==
  IF f = <<>> THEN <<>>
  ELSE IF Head(f) # 37 THEN <<Head(f)>> \o TimeText(Tail(f), t)
  ELSE IF Len(f) = 1 THEN <<37>>
  ELSE LET d == f[2] IN
       (CASE d = 37 -> <<37>> [] d = 89 -> INumeral(t[1]) [] d = 77 -> Two(t[2]) [] d = 68 -> Two(t[3]) [] d = 104 -> Two(t[4])
          [] d = 109 -> Two(t[5]) [] d = 115 -> Two(t[6]) [] d = 117 -> INumeral(t[7]) [] OTHER -> <<>>) \o TimeText(SubSeq(f, 3, Len(f)), t)

NL == <<10>>
(* arguments chosen by a plan: 0..4 words, 5..7 texts, 8 nil *)
Chosen(plan, ws, ts) == [i \in 1..Len(plan) |->
   IF plan[i] < 5 THEN [w |-> ws[plan[i] + 1], s |-> NilStr] ELSE [w |-> W0, s |-> IF plan[i] < 8 THEN ts[plan[i] - 4] ELSE NilStr]]
Put(s, T, to) == { [s |-> s, r |-> <<IF to = 1 THEN t ELSE <<>>, IF to = 2 THEN t ELSE <<>>, IF to = 3 THEN t ELSE <<>>>>] : t \in T }

Post(e, s) ==
  LET a == e.a IN
  CASE e.op = "fmt"   -> { [s |-> s, r |-> <<t, Len(t)>>] : t \in Formatted(a[1], Chosen(a[2], SubSeq(a, 3, 7), SubSeq(a, 8, 10)), <<>>, s) }
    [] e.op = "typed" -> LET w == a[1]  b == w[1]  P == <<124>> IN
         Ret(s, << SNumeral(Low32(w)) \o P \o UNumeral(Low32U(w), 10) \o P \o SNumeral(w) \o P \o UNumeral(w, 10) \o P \o (IF b % 2 = 1 THEN True ELSE False) \o P
                   \o UNumeral(w, 16) \o P \o Octal(w) \o P \o <<48, 120>> \o UNumeral(w, 16) \o P \o <<65 + (b % 26)>> \o P \o SNumeral(Low32(<<b, IF b > 127 THEN 255 ELSE 0, IF b > 127 THEN 255 ELSE 0, IF b > 127 THEN 255 ELSE 0, 0, 0, 0, 0>>))
                   \o P \o UNumeral(<<w[1], w[2], 0, 0, 0, 0, 0, 0>>, 10) >>)
    [] e.op = "mix"   -> (* floats f32, f64, f32, f64 between words *)
         { [s |-> s, r |-> <<t>>] : t \in Formatted(a[1], [i \in 1..3 |-> [w |-> a[1 + i], s |-> NilStr]], << <<a[5], a[6]>>, <<a[7], a[6]>>, <<a[8], a[6]>>, <<a[9], a[6]>> >>, s) }
    [] e.op = "flts"  -> { [s |-> s, r |-> <<t>>] : t \in Formatted(a[1], <<>>, [i \in 1..10 |-> <<a[2] + (i - 1) * a[3], a[4]>>], s) }
    [] e.op = "print" -> Put(s, Formatted(a[2], Chosen(a[3], SubSeq(a, 4, 8), SubSeq(a, 9, 11)), <<>>, s), a[1])
    [] e.op = "puts"  -> Put(s, {a[2] \o NL}, a[1])
    [] e.op = "putc"  -> Put(s, {<<a[2]>>}, a[1])
    [] e.op = "write" -> Put(s, {a[2]}, a[1])
    [] e.op = "writeln" -> Put(s, {a[2] \o NL}, a[1])
    [] e.op = "writeint" -> Put(s, {SNumeral(a[2])}, a[1])
    [] e.op = "writem" -> Put(s, {SNumeral(Low32(a[2])) \o <<44>> \o UNumeral(a[2], 10) \o <<44>> \o a[3]}, a[1])
    [] e.op = "newline" -> Put(s, {NL}, 1)
    [] e.op = "getc"  -> Ret(s, << [i \in 1..a[2] |-> IF i <= Len(a[1]) THEN a[1][i] ELSE 0] >>)
    [] e.op = "time"  -> LET t == TimeText(a[1], SubSeq(a, 2, 8)) IN Ret(s, <<t>>)
    [] e.op = "errnew" -> { [s |-> [kind |-> a[1], msg |-> a[2]], r |-> <<a[1], a[2], a[1], a[2]>>] }
    [] e.op = "errset" -> { [s |-> [kind |-> a[1], msg |-> a[2]], r |-> <<a[1], a[2], a[1], a[2]>>] }
    [] e.op = "errnone" -> { [s |-> [kind |-> 0, msg |-> NilStr], r |-> <<0, NilStr>>] }
    [] e.op = "errclear" -> { [s |-> [kind |-> 0, msg |-> NilStr], r |-> <<s.kind, s.msg>>] }
    [] e.op = "errcurrent" -> (IF s.kind = 0 THEN { [s |-> [kind |-> 0, msg |-> NilStr], r |-> <<0, NilStr>>] } ELSE Ret(s, <<s.kind, s.msg>>))
    [] e.op = "errsome" -> Ret(s, <<Bit(s.kind # 0)>>)
    [] e.op = "errstr" -> Ret(s, <<KindText(a[1])>>)
    [] e.op = "fmte"  -> Ret(s, << <<60>> \o ErrorText(a[1], a[2]) \o <<62>> >>)
    [] e.op = "steady" -> Ret(s, <<0>>)        \* formatting and printing over and over needs no more and more memory

Enabled(e, s) == TRUE
Inv(s) == s.kind >= 0
Op(o, a) == [op |-> o, a |-> a, r |-> <<>>]
SmallOps == { Op("errnew", <<5, <<97>>>>), Op("errset", <<22, <<98, 99>>>>), Op("errnone", <<>>), Op("errclear", <<>>), Op("errcurrent", <<>>), Op("errsome", <<>>),
              Op("print", <<1, <<60, 37, 69, 62>>, <<>>, W0, W0, W0, W0, W0, <<>>, <<>>, <<>> >>) }
=============================================================================
