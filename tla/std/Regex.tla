------------------------------- MODULE Regex -------------------------------
(* std::regex: which part of a text a pattern finds.                         *)
(* A pattern is a sequence of units, each a set of bytes with a quantifier   *)
(* (one, `*`, `+`, `?`), possibly tied to the beginning or the end.  `*` and *)
(* `+` take as much as still lets the rest match, `?` as little.             *)
EXTENDS Text

Bytes == 1..255
Word == Alpha \cup Digits \cup {95}
Dot == Bytes \ {10, 13}
Named(c) == CASE c = 100 -> Digits [] c = 68 -> Bytes \ Digits [] c = 119 -> Word [] c = 87 -> Bytes \ Word
              [] c = 115 -> Space [] c = 83 -> Bytes \ Space [] OTHER -> {c}
Bad == << [set |-> {}, q |-> -1] >>

(* members of a bracket's content *)
RECURSIVE Members(_)
Members(s) ==
  IF s = <<>> THEN {}
  ELSE IF s[1] = 92 THEN Named(s[2]) \cup Members(SubSeq(s, 3, Len(s)))
  ELSE IF Len(s) >= 3 /\ s[2] = 45 /\ s[1] # 45 THEN (s[1]..s[3]) \cup Members(SubSeq(s, 4, Len(s)))
  ELSE {s[1]} \cup Members(Tail(s))
(* position (1-based) of the bracket's end, 0 if it has none *)
RECURSIVE Closing(_, _)
Closing(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = 93 THEN i ELSE IF s[i] = 92 THEN (IF i = Len(s) THEN 0 ELSE Closing(s, i + 2)) ELSE Closing(s, i + 1)

Quant(c) == CASE c = 42 -> 1 [] c = 43 -> 2 [] c = 63 -> 3 [] OTHER -> 0
(* the units of a pattern without its leading ^; q: 0 one, 1 star, 2 plus, 3 question, 4 the end *)
RECURSIVE Units(_)
WithQuant(set, rest) == IF rest # <<>> /\ Quant(Head(rest)) # 0 THEN << [set |-> set, q |-> Quant(Head(rest))] >> \o Units(Tail(rest))
                        ELSE << [set |-> set, q |-> 0] >> \o Units(rest)
Units(p) ==
  IF p = <<>> THEN <<>>
  ELSE LET c == Head(p) IN
       IF c = 92 THEN (IF Len(p) = 1 THEN Bad ELSE WithQuant(Named(p[2]), SubSeq(p, 3, Len(p))))
       ELSE IF c = 91
       THEN LET inv == Len(p) > 1 /\ p[2] = 94
                from == IF inv THEN 3 ELSE 2
                to == Closing(p, from)
            IN IF to = 0 THEN Bad
               ELSE LET m == Members(SubSeq(p, from, to - 1)) IN WithQuant(IF inv THEN Bytes \ m ELSE m, SubSeq(p, to + 1, Len(p)))
       ELSE IF c = 36 /\ Len(p) = 1 THEN << [set |-> {}, q |-> 4] >>
       ELSE WithQuant(IF c = 46 THEN Dot ELSE {c}, Tail(p))
IsBad(us) == \E i \in 1..Len(us) : us[i].q = -1

(* how many bytes of t, from its start, the units match; -1 for not at all *)
RECURSIVE M(_, _), Longest(_, _, _, _, _)
Run(set, t) == Span(t, set)
Longest(rest, t, k, least, dummy) == IF k < least THEN -1
   ELSE LET m == M(rest, SubSeq(t, k + 1, Len(t))) IN IF m # -1 THEN k + m ELSE Longest(rest, t, k - 1, least, dummy)
M(us, t) ==
  IF us = <<>> THEN 0
  ELSE LET u == Head(us)  rest == Tail(us) IN
       CASE u.q = 0 -> IF t # <<>> /\ Head(t) \in u.set THEN LET m == M(rest, Tail(t)) IN IF m = -1 THEN -1 ELSE 1 + m ELSE -1
         [] u.q = 1 -> Longest(rest, t, Run(u.set, t), 0, 0)
         [] u.q = 2 -> Longest(rest, t, Run(u.set, t), 1, 0)
         [] u.q = 3 -> LET m == M(rest, t) IN
                       IF m # -1 THEN m
                       ELSE IF t # <<>> /\ Head(t) \in u.set THEN LET n == M(rest, Tail(t)) IN IF n = -1 THEN -1 ELSE 1 + n ELSE -1
         [] OTHER   -> IF t = <<>> THEN 0 ELSE -1

(* where a pattern matches: <<position, length>>, <<-1, 0>> for nowhere; a match needs a byte to stand on *)
RECURSIVE From(_, _, _)
From(us, t, i) == IF i >= Len(t) THEN <<-1, 0>>
                  ELSE LET m == M(us, SubSeq(t, i + 1, Len(t))) IN IF m # -1 THEN <<i, m>> ELSE From(us, t, i + 1)
Search(p, t) ==
  IF p # <<>> /\ Head(p) = 94
  THEN LET us == Units(Tail(p)) IN IF IsBad(us) THEN <<-1, 0>> ELSE LET m == M(us, t) IN IF m = -1 THEN <<-1, 0>> ELSE <<0, m>>
  ELSE LET us == Units(p) IN IF IsBad(us) THEN <<-1, 0>> ELSE From(us, t, 0)

Start(cfg) == [p |-> <<>>, bad |-> FALSE]
Post(e, s) ==
  CASE e.op = "compile" -> (* the result says whether the pattern is well formed *)
         LET us == Units(IF e.a[1] # <<>> /\ Head(e.a[1]) = 94 THEN Tail(e.a[1]) ELSE e.a[1]) IN
         { [s |-> [p |-> e.a[1], bad |-> IsBad(us)], r |-> <<IF IsBad(us) THEN 0 ELSE 1>>] }
    [] e.op = "find" -> { [s |-> s, r |-> Search(s.p, e.a[1])] }
    [] e.op = "matches" -> { [s |-> [p |-> e.a[1], bad |-> FALSE], r |-> Search(e.a[1], e.a[2])] }
Enabled(e, s) == TRUE
Inv(s) == Len(s.p) >= 0
=============================================================================
