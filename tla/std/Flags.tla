------------------------------- MODULE Flags -------------------------------
(* std::flags and std::args: what a command line does.  The program knows    *)
(* five flags; the object is the list of calls its callbacks received.       *)
EXTENDS Text

Start(cfg) == [x |-> 0]
F(n) == CASE n = "d" -> <<45, 100>>                       \* -d      no value
          [] n = "s" -> <<45, 115, 116, 114>>             \* -str    a string
          [] n = "b" -> <<45, 45, 98>>                    \* --b     true or false
          [] n = "i" -> <<45, 105>>                       \* -i      an integer
          [] n = "h" -> <<45, 45, 104, 101, 108, 112>>    \* --help
TrueT == <<116, 114, 117, 101>>
FalseT == <<102, 97, 108, 115, 101>>
HelpText == (* "tool\n  -d:\tdd\n  -str <string>:\tss\n  --b [true|false]:\tbb\n  -i <integer>:\tii\n  --help:\tDisplays this help text.\n" *)
  <<116, 111, 111, 108, 10>> \o <<32, 32>> \o F("d") \o <<58, 9, 100, 100, 10>>
  \o <<32, 32>> \o F("s") \o <<32, 60, 115, 116, 114, 105, 110, 103, 62, 58, 9, 115, 115, 10>>
  \o <<32, 32>> \o F("b") \o <<32, 91, 116, 114, 117, 101, 124, 102, 97, 108, 115, 101, 93, 58, 9, 98, 98, 10>>
  \o <<32, 32>> \o F("i") \o <<32, 60, 105, 110, 116, 101, 103, 101, 114, 62, 58, 9, 105, 105, 10>>
  \o <<32, 32>> \o F("h") \o <<58, 9, 68, 105, 115, 112, 108, 97, 121, 115, 32, 116, 104, 105, 115, 32, 104, 101, 108, 112, 32, 116, 101, 120, 116, 46, 10>>

(* read the arguments from the front: calls made, what was printed, error kind (0: none, 22: invalid) *)
RECURSIVE Parse(_, _, _)
Parse(l, calls, out) ==
  IF l = <<>> THEN <<calls, out, 0>>
  ELSE LET x == Head(l)  rest == Tail(l)
           Needs(K(_)) == IF rest = <<>> THEN <<calls, out, 22>> ELSE K(Head(rest))
           Str(v) == Parse(Tail(rest), Append(calls, <<115>> \o v), out)
           Bool(v) == IF v = TrueT THEN Parse(Tail(rest), Append(calls, <<98, 49>>), out)
                      ELSE IF v = FalseT THEN Parse(Tail(rest), Append(calls, <<98, 48>>), out)
                      ELSE <<calls, out, 22>>
           Number(v) == Parse(Tail(rest), Append(calls, <<105>> \o SNumeral(ReadInt(v))), out)
       IN IF x = F("d") THEN Parse(rest, Append(calls, <<100>>), out)
          ELSE IF x = F("h") THEN Parse(rest, calls, out \o HelpText)
          ELSE IF x = F("s") THEN Needs(Str)
          ELSE IF x = F("b") THEN Needs(Bool)
          ELSE IF x = F("i") THEN Needs(Number)
          ELSE <<calls, out, 22>>

Post(e, s) ==
  CASE e.op = "parse" -> (* arguments separated by the byte 1; an error says something on the error output *)
         LET p == Parse(IF e.a[1] = 0 THEN <<>> ELSE Split(e.a[2], {1}), <<>>, <<>>) IN { [s |-> s, r |-> <<p[1], p[2], p[3], IF p[3] = 0 THEN 0 ELSE 1>>] }
    [] e.op = "shift" -> (* taking a[3] arguments off one by one *)
         LET l == IF e.a[1] = 0 THEN <<>> ELSE Split(e.a[2], {1}) IN
         { [s |-> s, r |-> << [i \in 1..e.a[3] |-> IF i <= Len(l) THEN l[i] ELSE NilStr], Max2(0, Len(l) - e.a[3]) >>] }
Enabled(e, s) == TRUE
Inv(s) == s.x = 0
=============================================================================
