------------------------------- MODULE Source -------------------------------
(* What the TEXT of a CSpydr program means: from the bytes of its files      *)
(* through tokens, imported files, expanded macros, the syntax tree and the  *)
(* names in it to the bytes the program writes - or that it is no program.   *)
(*                                                                           *)
(* Covered: the lexical grammar, import, macro, namespace, using, type       *)
(* aliases and enums, global and local variables, functions, operator        *)
(* functions, every operator with its precedence, the statements, directives *)
(* and what happens before and after main.  All                              *)
(* arithmetic is 32 bit here; Machine.tla covers the other types.            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils, Text

Progs == JsonDeserialize(IOEnv.CSP_PROGS)

VARIABLES prog, stage, work                        \* which program, how far it is, and what it is by now
Observed == Progs[prog]

-----------------------------------------------------------------------------
(* 1. TOKENS                                                                 *)
(* [k |-> kind, s |-> name of a builtin operator, v |-> bytes, n |-> line,   *)
(*  w |-> value of a number]                                                 *)

KeywordNames == {"alignof", "asm", "break", "const", "continue", "defer", "do", "dyn", "else", "embed", "enum", "extern",
  "false", "fn", "for", "if", "import", "interface", "len", "let", "loop", "macro", "match", "namespace", "nil", "noop",
  "operator", "ret", "sizeof", "struct", "true", "type", "typeof", "union", "unless", "using", "while", "with"}
KeywordOf == [v \in { B(k) : k \in KeywordNames } |-> CHOOSE k \in KeywordNames : B(k) = v]
(* the builtin operators with their binding strength; a prefix-only one binds nothing to its left *)
Strength == [ o \in {"="} \cup {"+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="} |-> 1 ]
         @@ ("|>" :> 2) @@ ("||" :> 4) @@ ("&&" :> 5) @@ (":" :> 7) @@ ("|" :> 8) @@ ("^" :> 9) @@ ("&" :> 10)
         @@ ("==" :> 11) @@ ("!=" :> 11) @@ ("<" :> 12) @@ (">" :> 12) @@ ("<=" :> 12) @@ (">=" :> 12)
         @@ ("<<" :> 13) @@ (">>" :> 13) @@ ("+" :> 14) @@ ("-" :> 14) @@ ("*" :> 15) @@ ("/" :> 15) @@ ("%" :> 16)
         @@ ("++" :> 19) @@ ("--" :> 19) @@ ("." :> 23) @@ ("~" :> 0) @@ ("!" :> 0) @@ ("::" :> 0) @@ (".." :> 0)
OperatorOf == [v \in { B(o) : o \in DOMAIN Strength } |-> CHOOSE o \in DOMAIN Strength : B(o) = v]
CustomStrength == 3
InfixCallStrength == 6
UnaryStrength == 17
PowerStrength == 18
CallStrength == 21
IndexStrength == 22

Alnum == Alpha \cup Digits
IdChars == Alnum \cup {95, 63, 39}                 \* _ ? '
Blank == {9, 10, 13, 32}
OpChars == Rng(B("+-*/%=&^<>|!?.:~"))
SymbolOf == [c \in Rng(B("(){}[],;_$@`")) |-> SubSeq(Printable, c - 31, c - 31)]

Tok(k, v) == [k |-> k, s |-> "", v |-> v, n |-> 0, w |-> W0]

RECURSIVE RunEnd(_, _, _)                          \* the first position from i on that is not in the set
RunEnd(b, i, S) == IF i <= Len(b) /\ b[i] \in S THEN RunEnd(b, i + 1, S) ELSE i
RECURSIVE LineEnd(_, _)
LineEnd(b, i) == IF i > Len(b) \/ b[i] = 10 THEN i ELSE LineEnd(b, i + 1)
Is(b, i, c) == i <= Len(b) /\ b[i] = c
RECURSIVE CommentEnd(_, _, _)                      \* behind the comment's closing ]# , or 0
CommentEnd(b, i, d) ==
  IF i > Len(b) THEN 0
  ELSE IF b[i] = 93 /\ Is(b, i + 1, 35) THEN (IF d = 1 THEN i + 2 ELSE CommentEnd(b, i + 1, d - 1))
  ELSE IF b[i] = 35 /\ Is(b, i + 1, 91) THEN CommentEnd(b, i + 1, d + 1)
  ELSE CommentEnd(b, i + 1, d)
RECURSIVE Skip(_, _)                               \* behind blanks and comments, or 0
Skip(b, i) ==
  IF i > Len(b) THEN i
  ELSE IF b[i] \in Blank THEN Skip(b, RunEnd(b, i, Blank))
  ELSE IF b[i] # 35 THEN i
  ELSE IF Is(b, i + 1, 91) THEN (LET e == CommentEnd(b, i + 2, 1) IN IF e = 0 THEN 0 ELSE Skip(b, e))
  ELSE Skip(b, LineEnd(b, i))
RECURSIVE StringEnd(_, _)                          \* at the closing quote, or 0
StringEnd(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] = 34 THEN i ELSE IF b[i] = 92 THEN StringEnd(b, i + 2) ELSE StringEnd(b, i + 1)

DigitValue(c) == IF c \in Digits THEN c - 48 ELSE IF c \in Lower THEN c - 87 ELSE c - 55
Number(d, base) == FoldLeft(LAMBDA w, c : WAdd(WMul(w, Nat2W(base)), Nat2W(DigitValue(c))), W0, SelectSeq(d, LAMBDA c : c # 95))
NumTok(b, i, e, base, from) == LET d == SubSeq(b, from, e - 1)  w == Number(d, base)
                               IN [t |-> [Tok("int", UNumeral(w, 10)) EXCEPT !.w = w], i |-> e]
Line(b, i) == 1 + Cardinality({ j \in 1..(i - 1) : b[j] = 10 })

LexBad(b) == [t |-> Tok("bad", <<>>), i |-> Len(b) + 1]
(* one token, starting at i *)
Lex1(b, i) ==
  LET c == b[i] IN
  IF c \in Alpha \/ (c = 95 /\ i < Len(b) /\ b[i + 1] \in Alnum \cup {95}) THEN
     LET e == RunEnd(b, i, IdChars)  v == SubSeq(b, i, e - 1)
     IN IF Is(b, e, 33) THEN [t |-> [Tok("mac", v) EXCEPT !.n = Line(b, e)], i |-> e + 1]
        ELSE [t |-> Tok(IF v \in DOMAIN KeywordOf THEN KeywordOf[v] ELSE "id", v), i |-> e]
  ELSE IF c \in Digits THEN
     LET x == IF c = 48 /\ i < Len(b) THEN b[i + 1] ELSE 0
         hex == Digits \cup 65..70 \cup 97..102 \cup {95}
         e == RunEnd(b, i, Digits \cup {95})
     IN IF x = 120 THEN NumTok(b, i, RunEnd(b, i + 2, hex), 16, i + 2)
        ELSE IF x = 98 THEN NumTok(b, i, RunEnd(b, i + 2, {48, 49, 95}), 2, i + 2)
        ELSE IF x = 111 THEN NumTok(b, i, RunEnd(b, i + 2, 48..55 \cup {95}), 8, i + 2)
        ELSE IF Is(b, e, 46) /\ ~Is(b, e + 1, 46) THEN LexBad(b)              \* no floating point numbers here
        ELSE NumTok(b, i, e, 10, i)
  ELSE IF c = 34 THEN
     LET e == StringEnd(b, i + 1) IN IF e = 0 THEN LexBad(b) ELSE [t |-> Tok("str", SubSeq(b, i + 1, e - 1)), i |-> e + 1]
  ELSE IF c = 39 THEN
     (IF Is(b, i + 1, 92) /\ Is(b, i + 3, 39) THEN [t |-> Tok("chr", SubSeq(b, i + 1, i + 2)), i |-> i + 4]
      ELSE IF i + 2 <= Len(b) /\ b[i + 1] \notin {39, 92} /\ b[i + 2] = 39 THEN [t |-> Tok("chr", <<b[i + 1]>>), i |-> i + 3]
      ELSE LexBad(b))
  ELSE IF c \in DOMAIN SymbolOf THEN [t |-> Tok(SymbolOf[c], <<c>>), i |-> i + 1]
  ELSE IF c = 194 /\ Is(b, i + 1, 178) THEN [t |-> Tok("sq", <<194, 178>>), i |-> i + 2]
  ELSE IF c = 194 /\ Is(b, i + 1, 179) THEN [t |-> Tok("cu", <<194, 179>>), i |-> i + 2]
  ELSE IF c = 205 /\ Is(b, i + 1, 190) THEN [t |-> Tok(";", <<59>>), i |-> i + 2]       \* the Greek question mark
  ELSE IF c \in OpChars THEN
     LET e == RunEnd(b, i, OpChars)  v == SubSeq(b, i, e - 1)
     IN [t |-> IF v = B("...") THEN Tok("...", v) ELSE IF v = B("<-") THEN Tok("ret", v) ELSE IF v = B("=>") THEN Tok("=>", v)
               ELSE [Tok("op", v) EXCEPT !.s = IF v \in DOMAIN OperatorOf THEN OperatorOf[v] ELSE "custom"], i |-> e]
  ELSE LexBad(b)

(* all tokens of a file *)
Lex(b) ==
  FoldLeft(LAMBDA st, j : IF j # st.i THEN st
                          ELSE LET i == Skip(b, j) IN
                               IF i = 0 THEN [ts |-> Append(st.ts, Tok("bad", <<>>)), i |-> 0]
                               ELSE IF i > j THEN [st EXCEPT !.i = i]
                               ELSE LET r == Lex1(b, i) IN [ts |-> Append(st.ts, r.t), i |-> r.i],
           [ts |-> <<>>, i |-> 1], [j \in 1..Len(b) |-> j]).ts

-----------------------------------------------------------------------------
(* 2. IMPORTS: every file once, wherever the import stands                   *)

FileOf(p, name) == LET S == { i \in 1..Len(p.files) : p.files[i].name = name } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
DirOf(name) == LET k == FindLast(name, 47) IN IF k = -1 THEN <<>> ELSE Sub(name, 0, k + 1)
(* without "./" and "x/.." *)
RECURSIVE Clean(_)
Clean(name) ==
  LET parts == Split(name, {47})
      keep == FoldLeft(LAMBDA a, q : IF q = B(".") \/ q = <<>> THEN a
                                     ELSE IF q = B("..") /\ a # <<>> THEN SubSeq(a, 1, Len(a) - 1) ELSE Append(a, q), <<>>, parts)
  IN IF keep = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, q : a \o <<47>> \o q, keep[1], Tail(keep))
(* the files a file imports, as they stand in it: 0 for the one the library provides, -1 for none *)
ImportsOf(p, f, ts) == [ j \in { i \in 1..(Len(ts) - 1) : ts[i].k = "import" } |->
                           IF ts[j + 1].k # "str" THEN -1 ELSE LET name == Clean(DirOf(p.files[f].name) \o ts[j + 1].v)  at == FileOf(p, name)
                                IN IF at = 0 /\ name # B("rt.csp") THEN -1 ELSE at ]
RECURSIVE Load(_, _, _, _)                         \* queue of files, files seen, tokens so far
Load(p, queue, seen, acc) ==
  IF queue = <<>> THEN acc
  ELSE LET f == Head(queue)
           ts == Lex(p.files[f].text)
           im == ImportsOf(p, f, ts)
           new == FoldLeft(LAMBDA q, i : IF i \in DOMAIN im /\ im[i] > 0 /\ im[i] \notin seen /\ im[i] \notin Rng(q) THEN Append(q, im[i]) ELSE q,
                           <<>>, [i \in 1..Len(ts) |-> i])
       IN Load(p, Tail(queue) \o new, seen \cup Rng(new),
               IF \E i \in DOMAIN im : im[i] = -1 THEN Append(acc \o ts, Tok("bad", <<>>)) ELSE acc \o ts)

-----------------------------------------------------------------------------
(* 3. MACROS                                                                 *)

Macro(n, a, b) == [name |-> n, args |-> a, body |-> b]
Predefined == << Macro(B("__line__"), <<>>, << Tok("id", B("__line__")) >>),
                 Macro(B("__system__"), <<>>, << Tok("str", B("linux")) >>),
                 Macro(B("__architecture__"), <<>>, << Tok("str", B("x86_64")) >>) >>

RECURSIVE MacroArgs(_, _, _)                       \* names up to ")": [a, i, ok]
MacroArgs(t, i, a) ==
  IF i > Len(t) THEN [a |-> a, i |-> i, ok |-> FALSE]
  ELSE IF t[i].k = ")" THEN [a |-> a, i |-> i + 1, ok |-> TRUE]
  ELSE IF t[i].k # "id" \/ t[i].v \in Rng(a) \/ i = Len(t) THEN [a |-> a, i |-> i, ok |-> FALSE]
  ELSE IF t[i + 1].k = "," THEN MacroArgs(t, i + 2, Append(a, t[i].v))
  ELSE IF t[i + 1].k = ")" THEN [a |-> Append(a, t[i].v), i |-> i + 2, ok |-> TRUE]
  ELSE [a |-> a, i |-> i, ok |-> FALSE]
RECURSIVE BraceEnd(_, _, _)                        \* at the brace that closes, or 0
BraceEnd(t, i, d) == IF i > Len(t) THEN 0
                     ELSE IF t[i].k = "{" THEN BraceEnd(t, i + 1, d + 1)
                     ELSE IF t[i].k = "}" THEN (IF d = 0 THEN i ELSE BraceEnd(t, i + 1, d - 1))
                     ELSE BraceEnd(t, i + 1, d)
FindMacro(ms, v, n) == LET S == { i \in 1..Len(ms) : ms[i].name = v /\ Len(ms[i].args) = n } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

(* take the definitions out of the text: [ms, ts, ok] *)
RECURSIVE Definitions(_, _, _, _)
Definitions(t, i, ms, out) ==
  LET S == { j \in i..Len(t) : t[j].k = "macro" } IN
  IF S = {} THEN [ms |-> ms, ts |-> out \o SubSeq(t, i, Len(t)), ok |-> TRUE]
  ELSE LET j == CHOOSE j \in S : \A q \in S : j <= q
           fail == [ms |-> ms, ts |-> out, ok |-> FALSE]
       IN IF j + 2 > Len(t) \/ t[j + 1].k # "id" THEN fail
          ELSE LET a == IF t[j + 2].k = "(" THEN MacroArgs(t, j + 3, <<>>) ELSE [a |-> <<>>, i |-> j + 2, ok |-> TRUE]
               IN IF ~a.ok \/ a.i > Len(t) \/ t[a.i].k # "{" THEN fail
                  ELSE LET e == BraceEnd(t, a.i + 1, 0) IN
                       IF e = 0 \/ FindMacro(ms, t[j + 1].v, Len(a.a)) # 0 THEN fail
                       ELSE Definitions(t, e + 1, Append(ms, Macro(t[j + 1].v, a.a, SubSeq(t, a.i + 1, e - 1))), out \o SubSeq(t, i, j - 1))

Closer == [o \in {"(", "[", "{"} |-> CASE o = "(" -> ")" [] o = "[" -> "]" [] o = "{" -> "}"]
(* the arguments of a call from position i on (behind the opening bracket): [as, i, ok] *)
RECURSIVE CallArgs(_, _, _, _, _, _)
CallArgs(t, i, close, d, cur, as) ==
  IF i > Len(t) THEN [as |-> as, i |-> i, ok |-> FALSE]
  ELSE IF t[i].k = close /\ d = 0 THEN
     LET any == cur # <<>> \/ \E x \in Rng(as) : x # <<>>
     IN [as |-> IF any THEN Append(as, cur) ELSE as, i |-> i + 1, ok |-> TRUE]
  ELSE IF t[i].k = "," /\ d = 0 THEN CallArgs(t, i + 1, close, d, <<>>, Append(as, cur))
  ELSE LET d2 == IF t[i].k \in {"(", "[", "{"} THEN d + 1 ELSE IF t[i].k \in {")", "]", "}"} /\ d > 0 THEN d - 1 ELSE d
       IN CallArgs(t, i + 1, close, d2, Append(cur, t[i]), as)

Joinable(tok) == tok.k \in {"id", "int"} \cup KeywordNames
(* a @ b  becomes  ab *)
Joined(r) ==
  LET o == r.o  n == Len(o) IN
  IF n < 3 \/ o[n - 1].k # "@" \/ o[n - 2].k # "id" THEN r
  ELSE IF ~Joinable(o[n]) THEN [r EXCEPT !.ok = FALSE]
  ELSE [r EXCEPT !.o = Append(SubSeq(o, 1, n - 3), Tok("id", o[n - 2].v \o o[n].v))]

MaxDepth == 64                                     \* far above what the programs here need, below the compiler's limit
(* Expand: append the tokens of t, with their macro calls expanded, to r.o *)
RECURSIVE Expand(_, _, _, _, _, _)
RECURSIVE Substitute(_, _, _, _, _, _, _)
(* the body of macro m with the arguments put in, which are expanded on their own *)
Substitute(ms, m, as, line, i, r, d) ==
  IF i > Len(m.body) \/ ~r.ok THEN r
  ELSE LET tok == m.body[i]
           S == { j \in 1..Len(m.args) : m.args[j] = tok.v }
       IN IF tok.k = "id" /\ S # {} THEN Substitute(ms, m, as, line, i + 1, Expand(ms, as[CHOOSE j \in S : TRUE], 1, r, FALSE, d + 1), d)
          ELSE IF tok.k = "id" /\ tok.v = B("__line__")
               THEN Substitute(ms, m, as, line, i + 1, [r EXCEPT !.o = Append(@, [Tok("int", INumeral(line)) EXCEPT !.w = Nat2W(line)])], d)
          ELSE Substitute(ms, m, as, line, i + 1, [r EXCEPT !.o = Append(@, tok)], d)
Expand(ms, t, i, r, join, d) ==
  IF i > Len(t) \/ ~r.ok THEN r
  ELSE IF d > MaxDepth THEN [r EXCEPT !.ok = FALSE]
  ELSE LET J(x) == IF join THEN Joined(x) ELSE x IN
       IF t[i].k # "mac" THEN Expand(ms, t, i + 1, J([r EXCEPT !.o = Append(@, t[i])]), join, d)
       ELSE LET has == i < Len(t) /\ t[i + 1].k \in DOMAIN Closer
                a == IF has THEN CallArgs(t, i + 2, Closer[t[i + 1].k], 0, <<>>, <<>>) ELSE [as |-> <<>>, i |-> i + 1, ok |-> TRUE]
                f == IF a.ok THEN FindMacro(ms, t[i].v, Len(a.as)) ELSE 0
            IN IF f = 0 THEN [r EXCEPT !.ok = FALSE]
               ELSE LET body == Substitute(ms, ms[f], a.as, t[i].n, 1, [o |-> <<>>, ok |-> TRUE], d)
                    IN IF ~body.ok THEN [r EXCEPT !.ok = FALSE]
                       ELSE Expand(ms, t, a.i, J(Expand(ms, body.o, 1, r, TRUE, d + 1)), join, d)

-----------------------------------------------------------------------------
(* 4. THE SYNTAX TREE                                                        *)
(* parsing functions give [n |-> tree, i |-> next token]; a text that does   *)
(* not parse gives the tree [k |-> "bad"], found by the checks of part 5     *)

Bad(t) == [n |-> [k |-> "bad"], i |-> Len(t)]      \* the last token is always "eof"
IsBad(r) == r.n.k = "bad"
At_(t, i, k) == t[i].k = k
Op(t, i, o) == t[i].k = "op" /\ t[i].s = o

TokStrength(tok) ==
  CASE tok.k = "op" /\ tok.s = "custom" -> CustomStrength
    [] tok.k = "op" -> Strength[tok.s]
    [] tok.k = "(" -> CallStrength
    [] tok.k = "[" -> IndexStrength
    [] tok.k \in {"sq", "cu"} -> PowerStrength
    [] tok.k \in {"`", "else"} -> InfixCallStrength
    [] OTHER -> 0

(* a name: [n |-> [k |-> "id", p |-> parts, g |-> from the root], i] *)
RECURSIVE PathParts(_, _, _)
PathParts(t, i, acc) == IF Op(t, i, "::") /\ t[i + 1].k = "id" THEN PathParts(t, i + 2, Append(acc, t[i + 1].v)) ELSE [p |-> acc, i |-> i]
Path(t, i) == LET g == Op(t, i, "::")  j == IF g THEN i + 1 ELSE i
              IN IF t[j].k # "id" THEN Bad(t) ELSE LET r == PathParts(t, j + 1, <<t[j].v>>) IN [n |-> [k |-> "id", p |-> r.p, g |-> g], i |-> r.i]
(* a type: a name behind any number of & and const *)
RECURSIVE Type(_, _)
Type(t, i) == IF Op(t, i, "&") \/ At_(t, i, "const") THEN Type(t, i + 1) ELSE Path(t, i)

BinaryOps == {"||", "&&", "|", "^", "&", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "+", "-", "*", "/", "%"}
AssignOps == [o \in {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="} |->
                CASE o = "=" -> "" [] o = "+=" -> "+" [] o = "-=" -> "-" [] o = "*=" -> "*" [] o = "/=" -> "/" [] o = "%=" -> "%"
                  [] o = "&=" -> "&" [] o = "|=" -> "|" [] o = "^=" -> "^" [] o = "<<=" -> "<<" [] o = ">>=" -> ">>"]

RECURSIVE HasHole(_)
HasHole(e) == CASE e.k = "hole" -> TRUE
                [] e.k = "pipe" -> HasHole(e.l)
                [] e.k \in {"un", "cast", "post", "pow", "ptr"} -> HasHole(e.x)
                [] e.k \in {"bin", "orelse", "elem"} -> HasHole(e.l) \/ HasHole(e.r)
                [] e.k = "asg" -> HasHole(e.l) \/ HasHole(e.r)
                [] e.k = "call" -> HasHole(e.f) \/ \E i \in 1..Len(e.as) : HasHole(e.as[i])
                [] e.k \in {"seq", "array"} -> \E i \in 1..Len(e.xs) : HasHole(e.xs[i])
                [] e.k = "tern" -> HasHole(e.c) \/ HasHole(e.a) \/ HasHole(e.b)
                [] OTHER -> FALSE

RECURSIVE Expr(_, _, _, _)
RECURSIVE Infix(_, _, _, _, _)
RECURSIVE ExprList(_, _, _, _)                     \* up to the closing token: [xs, i, ok]
RECURSIVE Strings(_, _, _)
Strings(t, i, acc) == IF At_(t, i, "str") THEN Strings(t, i + 1, acc \o t[i].v) ELSE [n |-> [k |-> "str", v |-> acc], i |-> i]

Prefix(t, i) ==
  LET k == t[i].k IN
  CASE k = "id" -> Path(t, i)
    [] k = "int" -> [n |-> [k |-> "num", w |-> t[i].w], i |-> i + 1]
    [] k = "chr" -> [n |-> [k |-> "chr", v |-> t[i].v], i |-> i + 1]
    [] k = "str" -> Strings(t, i, <<>>)
    [] k = "nil" -> [n |-> [k |-> "num", w |-> W0], i |-> i + 1]
    [] k \in {"true", "false"} -> [n |-> [k |-> "num", w |-> IF k = "true" THEN W1 ELSE W0], i |-> i + 1]
    [] k = "$" -> [n |-> [k |-> "hole"], i |-> i + 1]
    [] k = "(" -> (LET r == ExprList(t, i + 1, ")", <<>>) IN IF r.ok /\ r.xs # <<>> THEN [n |-> [k |-> "seq", xs |-> r.xs], i |-> r.i] ELSE Bad(t))
    [] k = "if" -> (LET c == Expr(t, i + 1, 0, "=>") IN
                    IF IsBad(c) \/ ~At_(t, c.i, "=>") THEN Bad(t)
                    ELSE LET a == Expr(t, c.i + 1, 0, "else") IN
                         IF IsBad(a) \/ ~At_(t, a.i, "else") THEN Bad(t)
                         ELSE LET b == Expr(t, a.i + 1, 0, ";") IN
                              IF IsBad(b) THEN b ELSE [n |-> [k |-> "tern", c |-> c.n, a |-> a.n, b |-> b.n], i |-> b.i])
    [] k = "op" /\ t[i].s \in {"-", "!", "~"} -> (LET x == Expr(t, i + 1, UnaryStrength, "eof") IN
                    IF IsBad(x) THEN x ELSE [n |-> [k |-> "un", op |-> t[i].s, x |-> x.n], i |-> x.i])
    [] k = "op" /\ t[i].s = "::" -> Path(t, i)
    [] k = "[" -> (LET r == ExprList(t, i + 1, "]", <<>>) IN IF r.ok THEN [n |-> [k |-> "array", xs |-> r.xs], i |-> r.i] ELSE Bad(t))
    [] k = "op" /\ t[i].s \in {"&", "*"} -> (LET x == Expr(t, i + 1, UnaryStrength, "eof") IN      \* pointers: only that they parse
                    IF IsBad(x) THEN x ELSE [n |-> [k |-> "ptr", op |-> t[i].s, x |-> x.n], i |-> x.i])
    [] k = "op" /\ t[i].s = "custom" -> (LET x == Expr(t, i + 1, UnaryStrength, ";") IN
                    IF IsBad(x) THEN x ELSE [n |-> [k |-> "call", f |-> [k |-> "id", p |-> <<t[i].v>>, g |-> FALSE], as |-> <<x.n>>], i |-> x.i])
    [] OTHER -> Bad(t)

(* the operator at i applied to what stands to its left *)
Suffix(t, l, i) ==
  LET tok == t[i]  k == tok.k
      Right(p, end, F(_)) == LET r == Expr(t, i + 1, p, end) IN IF IsBad(r) THEN r ELSE [n |-> F(r.n), i |-> r.i]
      Id1(v) == [k |-> "id", p |-> <<v>>, g |-> FALSE]
  IN
  CASE k = "op" /\ tok.s \in BinaryOps -> Right(Strength[tok.s], "eof", LAMBDA r : [k |-> "bin", op |-> tok.s, l |-> l, r |-> r])
    [] k = "op" /\ tok.s \in DOMAIN AssignOps -> Right(0, "eof", LAMBDA r : [k |-> "asg", op |-> AssignOps[tok.s], l |-> l, r |-> r])
    [] k = "op" /\ tok.s \in {"++", "--"} -> [n |-> [k |-> "post", op |-> tok.s, x |-> l], i |-> i + 1]
    [] k = "op" /\ tok.s = ":" -> (LET ty == Type(t, i + 1) IN IF IsBad(ty) THEN ty ELSE [n |-> [k |-> "cast", x |-> l, t |-> ty.n], i |-> ty.i])
    [] k = "op" /\ tok.s = "|>" -> Right(Strength["|>"], ";", LAMBDA r :
           [k |-> "pipe", l |-> l, r |-> IF r.k = "call" /\ ~HasHole(r) THEN [r EXCEPT !.as = <<[k |-> "hole"]>> \o @] ELSE r])
    [] k = "op" /\ tok.s = "custom" -> Right(CustomStrength, ";", LAMBDA r : [k |-> "call", f |-> Id1(tok.v), as |-> <<l, r>>])
    [] k = "else" -> (LET r == Expr(t, i + 1, InfixCallStrength, ";") IN IF IsBad(r) THEN r ELSE [n |-> [k |-> "orelse", l |-> l, r |-> r.n], i |-> r.i])
    [] k \in {"sq", "cu"} -> [n |-> [k |-> "pow", e |-> IF k = "sq" THEN 2 ELSE 3, x |-> l], i |-> i + 1]
    [] k = "`" -> (LET f == Path(t, i + 1) IN
                   IF IsBad(f) \/ ~At_(t, f.i, "`") THEN Bad(t)
                   ELSE LET r == Expr(t, f.i + 1, InfixCallStrength, ";") IN
                        IF IsBad(r) THEN r ELSE [n |-> [k |-> "call", f |-> f.n, as |-> <<l, r.n>>], i |-> r.i])
    [] k = "(" -> (LET r == ExprList(t, i + 1, ")", <<>>) IN IF r.ok THEN [n |-> [k |-> "call", f |-> l, as |-> r.xs], i |-> r.i] ELSE Bad(t))
    [] k = "[" -> (LET r == Expr(t, IF Op(t, i + 1, "^") THEN i + 2 ELSE i + 1, 0, "]") IN          \* elements: only that they parse
                   IF IsBad(r) \/ ~At_(t, r.i, "]") THEN Bad(t) ELSE [n |-> [k |-> "elem", l |-> l, r |-> r.n], i |-> r.i + 1])
    [] OTHER -> Bad(t)

Infix(t, l, i, p, end) ==
  IF At_(t, i, end) \/ TokStrength(t[i]) <= p THEN [n |-> l, i |-> i]
  ELSE LET r == Suffix(t, l, i) IN IF IsBad(r) THEN r ELSE Infix(t, r.n, r.i, p, end)
Expr(t, i, p, end) == LET l == Prefix(t, i) IN IF IsBad(l) THEN l ELSE Infix(t, l.n, l.i, p, end)
ExprList(t, i, close, acc) ==
  IF At_(t, i, close) THEN [xs |-> acc, i |-> i + 1, ok |-> TRUE]
  ELSE LET x == Expr(t, i, 0, IF close = ")" THEN "," ELSE close) IN
       IF IsBad(x) THEN [xs |-> acc, i |-> i, ok |-> FALSE]
       ELSE IF At_(t, x.i, ",") THEN ExprList(t, x.i + 1, close, Append(acc, x.n))
       ELSE IF At_(t, x.i, close) THEN [xs |-> Append(acc, x.n), i |-> x.i + 1, ok |-> TRUE]
       ELSE [xs |-> acc, i |-> i, ok |-> FALSE]

RECURSIVE Stmt(_, _)
RECURSIVE Stmts(_, _, _)                           \* up to "}": [xs, i, ok]
RECURSIVE Cases(_, _, _)
RECURSIVE Names(_, _, _)                           \* names between commas: [xs, i, ok]
Names(t, i, acc) == LET p == Path(t, i) IN
                    IF IsBad(p) THEN [xs |-> acc, i |-> i, ok |-> FALSE]
                    ELSE IF At_(t, p.i, ",") THEN Names(t, p.i + 1, Append(acc, p.n)) ELSE [xs |-> Append(acc, p.n), i |-> p.i, ok |-> TRUE]

(* a name that is defined: a :: in front of it means nothing *)
Defined(t, i) == IF Op(t, i, "::") /\ t[i + 1].k = "id" THEN i + 1 ELSE i
Local(t, at) ==                                    \* let x: T = e;  const x = e;
  LET i == Defined(t, at + 1) - 1  kind == t[at].k IN
  IF t[i + 1].k # "id" THEN Bad(t)
  ELSE LET typed == Op(t, i + 2, ":")
           ty == IF typed THEN Type(t, i + 3) ELSE [n |-> [k |-> "none"], i |-> i + 2]
       IN IF IsBad(ty) THEN ty
          ELSE IF Op(t, ty.i, "=") THEN
               LET e == Expr(t, ty.i + 1, 0, ";") IN
               IF IsBad(e) \/ ~At_(t, e.i, ";") THEN Bad(t)
               ELSE [n |-> [k |-> "let", v |-> t[i + 1].v, c |-> kind = "const", t |-> ty.n, e |-> e.n], i |-> e.i + 1]
          ELSE IF typed /\ At_(t, ty.i, ";") THEN [n |-> [k |-> "let", v |-> t[i + 1].v, c |-> kind = "const", t |-> ty.n, e |-> [k |-> "none"]], i |-> ty.i + 1]
          ELSE Bad(t)

Stmt(t, i) ==
  LET k == t[i].k
      Semi(r) == IF IsBad(r) \/ ~At_(t, r.i, ";") THEN Bad(t) ELSE [r EXCEPT !.i = @ + 1]
      Then(r, F(_)) == IF IsBad(r) THEN r ELSE F(r)
  IN
  CASE k = "{" -> (LET b == Stmts(t, i + 1, <<>>) IN IF b.ok THEN [n |-> [k |-> "block", xs |-> b.xs], i |-> b.i] ELSE Bad(t))
    [] k = "ret" -> IF At_(t, i + 1, ";") THEN [n |-> [k |-> "ret", e |-> [k |-> "none"]], i |-> i + 2]
                    ELSE Then(Semi(Expr(t, i + 1, 0, ";")), LAMBDA r : [n |-> [k |-> "ret", e |-> r.n], i |-> r.i])
    [] k = "if" -> Then(Expr(t, i + 1, 0, "eof"), LAMBDA c : Then(Stmt(t, c.i), LAMBDA a :
                     IF At_(t, a.i, "else") THEN Then(Stmt(t, a.i + 1), LAMBDA b : [n |-> [k |-> "if", c |-> c.n, a |-> a.n, b |-> b.n], i |-> b.i])
                     ELSE [n |-> [k |-> "if", c |-> c.n, a |-> a.n, b |-> [k |-> "noop"]], i |-> a.i]))
    [] k = "while" -> Then(Expr(t, i + 1, 0, ";"), LAMBDA c : Then(Stmt(t, c.i), LAMBDA a : [n |-> [k |-> "while", c |-> c.n, a |-> a.n], i |-> a.i]))
    [] k = "loop" -> Then(Stmt(t, i + 1), LAMBDA a : [n |-> [k |-> "while", c |-> [k |-> "num", w |-> W1], a |-> a.n], i |-> a.i])
    [] k = "for" -> Then(IF At_(t, i + 1, "let") THEN Local(t, i + 1)
                         ELSE IF At_(t, i + 1, ";") THEN [n |-> [k |-> "noop"], i |-> i + 2]
                         ELSE Then(Expr(t, i + 1, 0, ";"), LAMBDA a :
                                IF Op(t, a.i, "..") THEN [n |-> [k |-> "from", e |-> a.n], i |-> a.i + 1]
                                ELSE Semi([n |-> [k |-> "init", e |-> a.n], i |-> a.i])),
                       LAMBDA l : IF l.n.k = "from"
                       THEN Then(Expr(t, l.i, 0, ";"), LAMBDA b : Then(Stmt(t, b.i), LAMBDA s : [n |-> [k |-> "range", a |-> l.n.e, b |-> b.n, s |-> s.n], i |-> s.i]))
                       ELSE LET Part(j, none) == IF At_(t, j, ";") THEN [n |-> none, i |-> j + 1] ELSE Semi(Expr(t, j, 0, ";")) IN
                            Then(Part(l.i, [k |-> "num", w |-> W1]), LAMBDA c : Then(Part(c.i, [k |-> "none"]), LAMBDA s : Then(Stmt(t, s.i), LAMBDA a :
                              [n |-> [k |-> "for", l |-> l.n, c |-> c.n, s |-> s.n, a |-> a.n], i |-> a.i]))))
    [] k = "match" -> Then(Expr(t, i + 1, 0, "{"), LAMBDA c : IF ~At_(t, c.i, "{") THEN Bad(t) ELSE
                     LET cs == Cases(t, c.i + 1, <<>>) IN IF cs.ok THEN [n |-> [k |-> "match", c |-> c.n, cs |-> cs.xs], i |-> cs.i] ELSE Bad(t))
    [] k = "using" -> (LET ns == Names(t, i + 1, <<>>) IN
                       IF ~ns.ok THEN Bad(t)
                       ELSE IF At_(t, ns.i, "for") THEN Then(Stmt(t, ns.i + 1), LAMBDA s : [n |-> [k |-> "usingfor", ps |-> ns.xs, s |-> s.n], i |-> s.i])
                       ELSE Semi([n |-> [k |-> "using", ps |-> ns.xs], i |-> ns.i]))
    [] k \in {"let", "const"} -> Local(t, i)
    [] k = ";" -> [n |-> [k |-> "noop"], i |-> i + 1]                     \* a stray semicolon is only warned about
    [] k \in {"break", "continue", "noop"} -> Semi([n |-> [k |-> k], i |-> i + 1])
    [] OTHER -> Then(Semi(Expr(t, i, 0, ";")), LAMBDA r : [n |-> [k |-> "expr", e |-> r.n], i |-> r.i])
Stmts(t, i, acc) ==
  IF At_(t, i, "}") THEN [xs |-> acc, i |-> i + 1, ok |-> TRUE]
  ELSE IF At_(t, i, "eof") THEN [xs |-> acc, i |-> i, ok |-> FALSE]
  ELSE LET s == Stmt(t, i) IN IF IsBad(s) THEN [xs |-> acc, i |-> i, ok |-> FALSE] ELSE Stmts(t, s.i, Append(acc, s.n))
Cases(t, i, acc) ==
  IF At_(t, i, "}") THEN [xs |-> acc, i |-> i + 1, ok |-> TRUE]
  ELSE LET m == IF At_(t, i, "_") THEN "else" ELSE IF t[i].k = "op" /\ t[i].s \in {"<", "<=", ">", ">="} THEN t[i].s ELSE "=="
           e == IF m = "else" THEN [n |-> [k |-> "none"], i |-> i + 1] ELSE Expr(t, IF m = "==" THEN i ELSE i + 1, 0, "=>")
       IN IF IsBad(e) \/ ~At_(t, e.i, "=>") THEN [xs |-> acc, i |-> i, ok |-> FALSE]
          ELSE LET s == Stmt(t, e.i + 1) IN
               IF IsBad(s) THEN [xs |-> acc, i |-> i, ok |-> FALSE] ELSE Cases(t, s.i, Append(acc, [m |-> m, e |-> e.n, s |-> s.n]))

RECURSIVE Params(_, _, _)                          \* a: T, b: T) : [xs, i, ok]
Params(t, at, acc) ==
  LET i == Defined(t, at) IN
  IF At_(t, i, ")") THEN [xs |-> acc, i |-> i + 1, ok |-> TRUE]
  ELSE IF t[i].k # "id" \/ ~Op(t, i + 1, ":") THEN [xs |-> acc, i |-> i, ok |-> FALSE]
  ELSE LET ty == Type(t, i + 2) IN
       IF IsBad(ty) THEN [xs |-> acc, i |-> i, ok |-> FALSE]
       ELSE LET a == Append(acc, [v |-> t[i].v, t |-> ty.n]) IN
            IF At_(t, ty.i, ",") THEN Params(t, ty.i + 1, a)
            ELSE IF At_(t, ty.i, ")") THEN [xs |-> a, i |-> ty.i + 1, ok |-> TRUE]
            ELSE [xs |-> acc, i |-> i, ok |-> FALSE]
(* what the operators do *)
I32(w) == Norm("i32", w)
Bool(b) == IF b THEN W1 ELSE W0
Binary(op, a, b) ==
  CASE op = "+" -> I32(WAdd(a, b)) [] op = "-" -> I32(WSub(a, b)) [] op = "*" -> I32(WMul(a, b))
    [] op = "/" -> I32(WDivS(a, b)) [] op = "%" -> I32(WModS(a, b))
    [] op = "&" -> WAnd(a, b) [] op = "|" -> WOr(a, b) [] op = "^" -> WXor(a, b)
    [] op = "<<" -> I32(WShl(a, W2Nat(b))) [] op = ">>" -> I32(WShrS(a, W2Nat(b)))
    [] op = "==" -> Bool(a = b) [] op = "!=" -> Bool(a # b)
    [] op = "<" -> Bool(WLtS(a, b)) [] op = ">" -> Bool(WLtS(b, a)) [] op = "<=" -> Bool(~WLtS(b, a)) [] op = ">=" -> Bool(~WLtS(a, b))

(* a constant: numbers, operators and members that come before; <<>> is another one, which is not told here *)
RECURSIVE Constant(_, _)
Constant(e, ms) ==
  CASE e.k = "num" -> <<e.w>>
    [] e.k = "seq" /\ Len(e.xs) = 1 -> Constant(e.xs[1], ms)
    [] e.k = "un" /\ e.op \in {"-", "~"} -> (LET x == Constant(e.x, ms) IN IF x = <<>> THEN x ELSE <<Norm("i32", IF e.op = "-" THEN WNeg(x[1]) ELSE WNot(x[1]))>>)
    [] e.k = "bin" /\ e.op \in {"+", "-", "*", "|", "&", "^"} -> (LET a == Constant(e.l, ms)  b == Constant(e.r, ms) IN IF a = <<>> \/ b = <<>> THEN <<>> ELSE <<Binary(e.op, a[1], b[1])>>)
    [] e.k = "id" /\ Len(e.p) = 1 -> (LET S == { i \in 1..Len(ms) : ms[i].v = e.p[1] /\ ~ms[i].u } IN IF S = {} THEN <<>> ELSE <<Nat2W(ms[CHOOSE i \in S : TRUE].x)>>)
    [] OTHER -> <<>>
RECURSIVE Members(_, _, _, _)                      \* the members of an enum (u: which value is not told)
Members(t, at, next, acc) ==
  LET i == Defined(t, at)  fail == [xs |-> acc, i |-> i, ok |-> FALSE] IN
  IF At_(t, i, "}") THEN [xs |-> acc, i |-> i + 1, ok |-> TRUE]
  ELSE IF t[i].k # "id" THEN fail
  ELSE LET set == Op(t, i + 1, "=")
           e == Expr(t, i + 2, 0, ",")
           c == Constant(e.n, acc)
           known == IF ~set THEN acc = <<>> \/ ~acc[Len(acc)].u ELSE c # <<>> /\ SmallW(c[1])
           v == IF ~known THEN 0 ELSE IF set THEN W2Nat(c[1]) ELSE next
           j == IF set THEN e.i ELSE i + 1
           a == Append(acc, [v |-> t[i].v, x |-> v, u |-> ~known])
       IN IF set /\ IsBad(e) THEN fail
          ELSE IF At_(t, j, ",") THEN Members(t, j + 1, v + 1, a)
          ELSE IF At_(t, j, "}") THEN [xs |-> a, i |-> j + 1, ok |-> TRUE]
          ELSE fail

Function(t, at) ==
  LET kind == t[at].k  i == IF kind = "fn" THEN Defined(t, at + 1) - 1 ELSE at IN
  IF ~(kind = "fn" /\ t[i + 1].k = "id") /\ ~(kind = "operator" /\ t[i + 1].k = "op" /\ t[i + 1].s = "custom") THEN Bad(t)
  ELSE IF ~At_(t, i + 2, "(") THEN Bad(t)
  ELSE LET ps == Params(t, i + 3, <<>>) IN
       IF ~ps.ok \/ (kind = "operator" /\ Len(ps.xs) \notin {1, 2}) THEN Bad(t)
       ELSE LET ty == IF Op(t, ps.i, ":") THEN Type(t, ps.i + 1) ELSE [n |-> [k |-> "none"], i |-> ps.i]
                F(b, j) == [n |-> [k |-> "fn", v |-> t[i + 1].v, ps |-> ps.xs, t |-> ty.n, b |-> b], i |-> j]
            IN IF IsBad(ty) THEN ty
               ELSE IF Op(t, ty.i, "=") THEN
                    LET e == Expr(t, ty.i + 1, 0, ";") IN
                    IF IsBad(e) \/ ~At_(t, e.i, ";") THEN Bad(t) ELSE F([k |-> "ret", e |-> e.n], e.i + 1)
               ELSE LET s == Stmt(t, ty.i) IN IF IsBad(s) THEN s ELSE F(s.n, s.i)

(* [a, b("x")] [c("y", "z")] in front of a definition: [ds, i, ok] *)
RECURSIVE DirArgs(_, _, _)
DirArgs(t, i, acc) == IF At_(t, i, ")") THEN [as |-> acc, i |-> i + 1, ok |-> TRUE]
                      ELSE IF ~At_(t, i, "str") THEN [as |-> acc, i |-> i, ok |-> FALSE]
                      ELSE IF At_(t, i + 1, ",") THEN DirArgs(t, i + 2, Append(acc, t[i].v))
                      ELSE IF At_(t, i + 1, ")") THEN [as |-> Append(acc, t[i].v), i |-> i + 2, ok |-> TRUE]
                      ELSE [as |-> acc, i |-> i, ok |-> FALSE]
Arity == [d \in {"before_main", "after_main", "private", "flag", "constexpr"} |-> {0}]
         @@ [d \in {"cfg", "env_defined", "export"} |-> {1}] @@ [d \in {"env_eq", "env_ne"} |-> {2}] @@ ("deprecated" :> {0, 1})
DirectiveOf == [v \in { B(d) : d \in DOMAIN Arity } |-> CHOOSE d \in DOMAIN Arity : B(d) = v]
RECURSIVE Directives(_, _, _)
Directives(t, i, acc) ==                           \* at a name within [ ]
  LET fail == [ds |-> acc, i |-> i, ok |-> FALSE] IN
  IF t[i].k # "id" \/ t[i].v \notin DOMAIN DirectiveOf THEN fail
  ELSE LET d == DirectiveOf[t[i].v]
           a == IF At_(t, i + 1, "]") \/ At_(t, i + 1, ",") THEN [as |-> <<>>, i |-> i + 1, ok |-> TRUE]
                ELSE IF At_(t, i + 1, "(") THEN DirArgs(t, i + 2, <<>>) ELSE [as |-> <<>>, i |-> i, ok |-> FALSE]
           ds == Append(acc, [d |-> d, as |-> a.as])
           Close(j) == IF At_(t, j + 1, "[") THEN Directives(t, j + 2, ds) ELSE [ds |-> ds, i |-> j + 1, ok |-> TRUE]
       IN IF ~a.ok \/ Len(a.as) \notin Arity[d] THEN fail
          ELSE IF At_(t, a.i, "]") THEN Close(a.i)
          ELSE IF At_(t, a.i, ",") THEN (IF At_(t, a.i + 1, "]") THEN Close(a.i + 1) ELSE Directives(t, a.i + 1, ds))
          ELSE fail

(* what is true when the program is compiled *)
Negated(v) == v # <<>> /\ v[1] = 33
NameIn(v) == IF Negated(v) THEN Tail(v) ELSE v
Configuration == ("linux" :> TRUE) @@ ("windows" :> FALSE) @@ ("macos" :> FALSE) @@ ("codegen_c" :> (Observed.backend = "c"))
                 @@ ("codegen_asm" :> (Observed.backend = "asm")) @@ ("codegen_llvm" :> FALSE) @@ ("interpreted" :> (Observed.backend = "interp"))
ConfigurationOf == [v \in { B(c) : c \in DOMAIN Configuration } |-> CHOOSE c \in DOMAIN Configuration : B(c) = v]
Environment(v) == LET S == { i \in 1..Len(Observed.env) : Observed.env[i][1] = v } IN IF S = {} THEN <<>> ELSE << Observed.env[CHOOSE i \in S : TRUE][2] >>
Holds(x) ==                                        \* of a directive: the definition stays
  CASE x.as # <<>> /\ x.as[1] = <<>> /\ x.d # "export" -> x.d \notin {"cfg", "env_defined", "env_eq", "env_ne"}
    [] x.d = "cfg" -> IF NameIn(x.as[1]) \in DOMAIN ConfigurationOf THEN Configuration[ConfigurationOf[NameIn(x.as[1])]] # Negated(x.as[1]) ELSE FALSE
    [] x.d = "env_defined" -> (Environment(NameIn(x.as[1])) # <<>>) # Negated(x.as[1])
    [] x.d = "env_eq" -> (LET e == Environment(x.as[1]) IN (IF e = <<>> THEN <<>> ELSE e[1]) = x.as[2])
    [] x.d = "env_ne" -> (LET e == Environment(x.as[1]) IN (IF e = <<>> THEN <<>> ELSE e[1]) # x.as[2])
    [] OTHER -> TRUE
DecimalOf(v) == IF v # <<>> /\ Rng(v) \subseteq Digits THEN FoldLeft(LAMBDA n, c : 10 * n + DigitValue(c), 0, v) ELSE -1
IsDate(v) == /\ Len(v) = 10 /\ v[5] = 45 /\ v[8] = 45
             /\ DecimalOf(SubSeq(v, 1, 4)) >= 0 /\ DecimalOf(SubSeq(v, 6, 7)) \in 1..12
             /\ DecimalOf(SubSeq(v, 9, 10)) \in 1..(CASE DecimalOf(SubSeq(v, 6, 7)) = 2 -> 29 [] DecimalOf(SubSeq(v, 6, 7)) \in {4, 6, 9, 11} -> 30 [] OTHER -> 31)
(* of a directive: it may stand in front of this, and there it means something *)
Suits(x, n) == CASE x.d \in {"before_main", "after_main"} -> n.k = "fn"
                 [] x.d \in {"export", "constexpr"} -> n.k \in {"fn", "let"}
                 [] x.d = "flag" -> n.k \in {"enum", "type"}
                 [] OTHER -> TRUE
Fits(x, n) == CASE x.d = "flag" -> n.k = "enum" /\ \A i \in 1..Len(n.ms) : n.ms[i].x \in 0..31
                [] x.d = "cfg" -> x.as[1] = <<>> \/ NameIn(x.as[1]) \in DOMAIN ConfigurationOf
                [] x.d = "deprecated" -> x.as = <<>> \/ IsDate(x.as[1])
                [] OTHER -> TRUE
Conditions == {"cfg", "env_defined", "env_eq", "env_ne"}

RECURSIVE Items(_, _, _, _)                        \* [xs, i, ok]
Item(t, at) ==                                     \* what directives take away is [k |-> "gone"]
  LET k == t[at].k
      i == IF k \in {"let", "const", "namespace", "type"} THEN Defined(t, at + 1) - 1 ELSE at
  IN CASE k \in {"fn", "operator"} -> Function(t, i)
       [] k \in {"let", "const"} -> IF Op(t, i + 2, ":") THEN Local(t, at) ELSE Bad(t)
       [] k = "namespace" -> IF t[i + 1].k # "id" \/ ~At_(t, i + 2, "{") THEN Bad(t)
                             ELSE LET b == Items(t, i + 3, "}", <<>>) IN
                                  IF b.ok THEN [n |-> [k |-> "ns", v |-> t[i + 1].v, xs |-> b.xs], i |-> b.i] ELSE Bad(t)
       [] k = "type" -> IF t[i + 1].k # "id" \/ ~Op(t, i + 2, ":") THEN Bad(t)
                        ELSE IF At_(t, i + 3, "enum") THEN
                             (IF ~At_(t, i + 4, "{") THEN Bad(t)
                              ELSE LET m == Members(t, i + 5, 0, <<>>) IN
                                   IF m.ok /\ At_(t, m.i, ";") THEN [n |-> [k |-> "enum", v |-> t[i + 1].v, ms |-> m.xs], i |-> m.i + 1] ELSE Bad(t))
                        ELSE LET ty == Type(t, i + 3) IN
                             IF IsBad(ty) \/ ~At_(t, ty.i, ";") THEN Bad(t) ELSE [n |-> [k |-> "type", v |-> t[i + 1].v, t |-> ty.n], i |-> ty.i + 1]
       [] OTHER -> Bad(t)
Items(t, i, close, acc) ==
  LET fail == [xs |-> acc, i |-> i, ok |-> FALSE] IN
  IF At_(t, i, close) THEN [xs |-> acc, i |-> i + 1, ok |-> TRUE]
  ELSE IF At_(t, i, "import") THEN (IF close = "eof" /\ At_(t, i + 1, "str") /\ At_(t, i + 2, ";") THEN Items(t, i + 3, close, acc) ELSE fail)
  ELSE IF ~At_(t, i, "[") THEN LET r == Item(t, i) IN IF IsBad(r) THEN fail ELSE Items(t, r.i, close, Append(acc, r.n))
  ELSE LET d == Directives(t, i + 1, <<>>)
           r == Item(t, d.i)
           stays == \A j \in 1..Len(d.ds) : Holds(d.ds[j])
       IN IF ~d.ok \/ IsBad(r) THEN fail
          ELSE IF \E j \in 1..Len(d.ds) : ~Suits(d.ds[j], r.n) \/ ((stays \/ d.ds[j].d \in Conditions) /\ ~Fits(d.ds[j], r.n)) THEN fail
          ELSE Items(t, r.i, close, IF stays THEN Append(acc, [x \in {"marks"} |-> { d.ds[j].d : j \in 1..Len(d.ds) }] @@ r.n) ELSE acc)
Marks(n) == IF "marks" \in DOMAIN n THEN n.marks ELSE {}

-----------------------------------------------------------------------------
(* 5. NAMES                                                                  *)
(* All entities of the program: a function from their full names.            *)

Primitive == { B(x) : x \in {"i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "bool", "char", "void"} }
Builtins == << Macro(B("put"), <<1>>, <<>>), Macro(B("putb"), <<1>>, <<>>), Macro(B("put8"), <<1>>, <<>>), Macro(B("say"), <<1>>, <<>>) >>
Root == FoldLeft(LAMBDA g, m : (<<m.name>> :> [k |-> "builtin", v |-> m.name]) @@ g, <<>>, Builtins)

(* [g |-> entities, n |-> number of global variables, hs |-> full names of functions *)
(* that run before or after main, ok |-> no name twice]                             *)
RECURSIVE Enter(_, _, _)
Enter(acc, pre, xs) ==
  FoldLeft(LAMBDA a, x :
    LET p == Append(pre, x.v)  new == p \notin DOMAIN a.g
        Put(e) == [a EXCEPT !.g = (p :> e) @@ @, !.ok = @ /\ new]
    IN CASE x.k = "fn" -> [Put([k |-> "fn", d |-> x, ns |-> pre]) EXCEPT !.hs = IF Marks(x) \cap {"before_main", "after_main"} = {} THEN @ ELSE Append(@, p)]
         [] x.k = "let" -> [Put([k |-> "var", a |-> a.n + 1, c |-> x.c, d |-> x, ns |-> pre]) EXCEPT !.n = @ + 1]
         [] x.k = "type" -> Put([k |-> "type", d |-> x, ns |-> pre])
         [] x.k = "enum" -> LET b == Put([k |-> "type", d |-> x, ns |-> pre])
                            IN FoldLeft(LAMBDA c, m : [c EXCEPT !.g = (Append(p, m.v) :> [k |-> "member", x |-> IF "flag" \in Marks(x) THEN WShl(W1, m.x) ELSE Nat2W(m.x)]) @@ @,
                                                                !.ok = @ /\ Append(p, m.v) \notin DOMAIN c.g, !.open = @ \/ m.u], b, x.ms)
         [] x.k = "ns" -> IF new THEN Enter([a EXCEPT !.g = (p :> [k |-> "ns"]) @@ @], p, x.xs)
                          ELSE IF a.g[p].k = "ns" THEN Enter(a, p, x.xs) ELSE [a EXCEPT !.ok = FALSE],
    acc, xs)

None == [k |-> "none"]
(* env: [sc |-> scopes, innermost last; ns |-> the namespace; h |-> value of $ ]; a scope maps names to       *)
(* [k |-> "var", a |-> place, c |-> constant] or [k |-> "at", p |-> full name] (what `using` brings in)       *)
RECURSIVE InNamespaces(_, _, _)
InNamespaces(g, ns, v) == IF Append(ns, v) \in DOMAIN g THEN [k |-> "at", p |-> Append(ns, v)]
                          ELSE IF ns = <<>> THEN None ELSE InNamespaces(g, SubSeq(ns, 1, Len(ns) - 1), v)
First(g, env, v) == LET S == { i \in 1..Len(env.sc) : v \in DOMAIN env.sc[i] }
                    IN IF S = {} THEN InNamespaces(g, env.ns, v) ELSE env.sc[CHOOSE i \in S : \A j \in S : j <= i][v]
Meaning(g, env, id) ==
  LET f == IF id.g THEN (IF <<id.p[1]>> \in DOMAIN g THEN [k |-> "at", p |-> <<id.p[1]>>] ELSE None) ELSE First(g, env, id.p[1])
  IN IF Len(id.p) = 1 THEN f
     ELSE IF f.k # "at" THEN None
     ELSE LET full == f.p \o Tail(id.p)
          IN IF \A n \in (Len(f.p) + 1)..Len(full) : SubSeq(full, 1, n) \in DOMAIN g THEN [k |-> "at", p |-> full] ELSE None
(* the entity or the local variable *)
Entity(g, env, id) == LET m == Meaning(g, env, id) IN IF m.k = "at" THEN g[m.p] ELSE m

MembersOf(g, p) == { q \in DOMAIN g : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p }
Brought(g, p) == LET ms == MembersOf(g, p) IN [v \in { q[Len(q)] : q \in ms } |-> [k |-> "at", p |-> Append(p, v)]]
Open(env, scope) == [env EXCEPT !.sc = Append(@, scope)]
Extend(env, scope) == [env EXCEPT !.sc[Len(env.sc)] = scope @@ @]
Empty == [x \in {} |-> x]
Lets(xs) == SelectSeq(xs, LAMBDA s : s.k = "let")
NoTwice(seq) == Cardinality(Rng(seq)) = Len(seq)

(* what the names in a type must be *)
TypeOK(g, env, t) == IF t.k = "none" THEN TRUE
                     ELSE IF Len(t.p) = 1 /\ ~t.g /\ t.p[1] \in Primitive THEN TRUE
                     ELSE Entity(g, env, t).k = "type"
EscapeOK(v) == Len(v) = 1 \/ v[2] \in Rng(B("abtvnrf'\"\\0"))
RECURSIVE TextOK(_, _)
HexDigits == Digits \cup 65..70 \cup 97..102
TextOK(v, i) == IF i > Len(v) THEN TRUE
                ELSE IF v[i] # 92 THEN TextOK(v, i + 1)
                ELSE IF i = Len(v) THEN FALSE
                ELSE IF v[i + 1] = 120 THEN i + 3 <= Len(v) /\ v[i + 2] \in HexDigits /\ v[i + 3] \in HexDigits /\ TextOK(v, i + 4)
                ELSE v[i + 1] \in Rng(B("abtvnrfe'\"\\0")) /\ TextOK(v, i + 2)

(* what can be changed: a variable, also in brackets or behind a type *)
RECURSIVE Place(_, _, _)
Place(g, env, e) == CASE e.k = "id" -> (LET m == Entity(g, env, e) IN m.k = "var" /\ ~m.c)
                      [] e.k = "seq" -> Place(g, env, e.xs[Len(e.xs)])
                      [] e.k = "cast" -> Place(g, env, e.x)
                      [] OTHER -> e.k = "elem" \/ (e.k = "ptr" /\ e.op = "*")
(* what is private is not called by its full name *)
Visible(e, m) == Len(e.p) = 1 \/ m.k \notin {"fn", "var"} \/ "d" \notin DOMAIN m \/ "private" \notin Marks(m.d)
RECURSIVE ExprOK(_, _, _)
ExprOK(g, env, e) ==
  CASE e.k \in {"num", "none"} -> TRUE
    [] e.k = "hole" -> env.h
    [] e.k = "chr" -> EscapeOK(e.v)
    [] e.k = "str" -> TextOK(e.v, 1)
    [] e.k = "id" -> LET m == Entity(g, env, e) IN m.k \in {"var", "member", "fn", "builtin"} /\ Visible(e, m)
    [] e.k \in {"un", "pow"} -> ExprOK(g, env, e.x)
    [] e.k = "post" -> ExprOK(g, env, e.x) /\ Place(g, env, e.x)
    [] e.k = "ptr" -> ExprOK(g, env, e.x)
    [] e.k \in {"orelse", "elem"} -> ExprOK(g, env, e.l) /\ ExprOK(g, env, e.r)
    [] e.k = "cast" -> ExprOK(g, env, e.x) /\ TypeOK(g, env, e.t)
    [] e.k = "bin" -> ExprOK(g, env, e.l) /\ ExprOK(g, env, e.r)
    [] e.k = "asg" -> ExprOK(g, env, e.r) /\ ExprOK(g, env, e.l) /\ e.l.k # "cast" /\ Place(g, env, e.l)
    [] e.k \in {"seq", "array"} -> \A i \in 1..Len(e.xs) : ExprOK(g, env, e.xs[i])
    [] e.k = "tern" -> ExprOK(g, env, e.c) /\ ExprOK(g, env, e.a) /\ ExprOK(g, env, e.b)
    [] e.k = "pipe" -> ExprOK(g, env, e.l) /\ ExprOK(g, [env EXCEPT !.h = TRUE], e.r)
    [] e.k = "call" -> /\ \A i \in 1..Len(e.as) : ExprOK(g, env, e.as[i])
                       /\ e.f.k = "id"
                       /\ LET m == Entity(g, env, e.f)
                          IN CASE m.k = "fn" -> Len(m.d.ps) = Len(e.as) /\ Visible(e.f, m) [] m.k = "builtin" -> Len(e.as) = 1 [] OTHER -> FALSE
    [] OTHER -> FALSE

Scope0(xs) == [v \in { s.v : s \in Rng(Lets(xs)) } |-> [k |-> "var", a |-> 0, c |-> LET l == Lets(xs) IN l[CHOOSE i \in 1..Len(l) : l[i].v = v].c]]
RECURSIVE UsingOK(_, _, _, _)
RECURSIVE UsingEnv(_, _, _, _)
(* the names brought in are in the innermost scope from then on, and none may be there already *)
UsingOK(g, env, ps, i) ==
  IF i > Len(ps) THEN TRUE
  ELSE LET m == Meaning(g, env, ps[i]) IN
       /\ m.k = "at" /\ g[m.p].k = "ns"
       /\ DOMAIN Brought(g, m.p) \cap DOMAIN env.sc[Len(env.sc)] = {}
       /\ UsingOK(g, Extend(env, Brought(g, m.p)), ps, i + 1)
UsingEnv(g, env, ps, i) == IF i > Len(ps) THEN env ELSE UsingEnv(g, Extend(env, Brought(g, Meaning(g, env, ps[i]).p)), ps, i + 1)

(* an expression that is evaluated for what it does *)
RECURSIVE Executable(_)
Executable(e) == CASE e.k \in {"call", "asg", "post", "cast"} -> TRUE
                   [] e.k = "seq" -> Executable(e.xs[Len(e.xs)])
                   [] e.k = "pipe" -> Executable(e.r)
                   [] e.k = "tern" -> Executable(e.a) /\ Executable(e.b)
                   [] OTHER -> FALSE

RECURSIVE StmtOK(_, _, _)
RECURSIVE StmtsOK(_, _, _, _)
StmtOK(g, env, s) ==
  CASE s.k \in {"noop", "break", "continue"} -> TRUE
    [] s.k = "expr" -> ExprOK(g, env, s.e) /\ Executable(s.e)
    [] s.k \in {"ret", "init"} -> ExprOK(g, env, s.e)
    [] s.k = "let" -> ExprOK(g, env, s.e) /\ TypeOK(g, env, s.t)
    [] s.k = "if" -> ExprOK(g, env, s.c) /\ StmtOK(g, env, s.a) /\ StmtOK(g, env, s.b)
    [] s.k = "while" -> ExprOK(g, env, s.c) /\ StmtOK(g, env, s.a)
    [] s.k = "for" -> LET in == Open(env, Scope0(<<s.l>>)) IN StmtOK(g, in, s.l) /\ ExprOK(g, in, s.c) /\ ExprOK(g, in, s.s) /\ StmtOK(g, in, s.a)
    [] s.k = "range" -> ExprOK(g, env, s.a) /\ ExprOK(g, env, s.b) /\ StmtOK(g, env, s.s)
    [] s.k = "match" -> /\ ExprOK(g, env, s.c)
                        /\ \A i \in 1..Len(s.cs) : ExprOK(g, env, s.cs[i].e) /\ StmtOK(g, env, s.cs[i].s)
                        /\ Cardinality({ i \in 1..Len(s.cs) : s.cs[i].m = "else" }) <= 1
    [] s.k = "block" -> NoTwice([i \in 1..Len(Lets(s.xs)) |-> Lets(s.xs)[i].v]) /\ StmtsOK(g, Open(env, Scope0(s.xs)), s.xs, 1)
    [] s.k = "usingfor" -> LET in == Open(env, Empty) IN UsingOK(g, in, s.ps, 1) /\ StmtOK(g, UsingEnv(g, in, s.ps, 1), s.s)
    [] OTHER -> FALSE
(* the type of a local variable does not see the variables behind it *)
Before(env, xs, i) == LET n == Len(env.sc)  later == { xs[j].v : j \in { j \in (i + 1)..Len(xs) : xs[j].k = "let" } }
                      IN [env EXCEPT !.sc[n] = [v \in { v \in DOMAIN @ : v \notin later } |-> env.sc[n][v]]]
StmtsOK(g, env, xs, i) ==
  IF i > Len(xs) THEN TRUE
  ELSE IF xs[i].k = "let" THEN ExprOK(g, env, xs[i].e) /\ TypeOK(g, Before(env, xs, i), xs[i].t) /\ StmtsOK(g, env, xs, i + 1)
  ELSE IF xs[i].k = "using" THEN UsingOK(g, env, xs[i].ps, 1) /\ StmtsOK(g, UsingEnv(g, env, xs[i].ps, 1), xs, i + 1)
  ELSE StmtOK(g, env, xs[i]) /\ StmtsOK(g, env, xs, i + 1)

(* break leaves the innermost loop or match statement, continue goes on with the innermost loop *)
RECURSIVE Jumps(_, _, _)
Jumps(s, brk, cont) ==
  CASE s.k = "break" -> brk
    [] s.k = "continue" -> cont
    [] s.k = "if" -> Jumps(s.a, brk, cont) /\ Jumps(s.b, brk, cont)
    [] s.k \in {"while", "for"} -> Jumps(s.a, TRUE, TRUE)
    [] s.k = "range" -> Jumps(s.s, TRUE, TRUE)
    [] s.k = "match" -> \A i \in 1..Len(s.cs) : Jumps(s.cs[i].s, TRUE, cont)
    [] s.k = "block" -> \A i \in 1..Len(s.xs) : Jumps(s.xs[i], brk, cont)
    [] s.k = "usingfor" -> Jumps(s.s, brk, cont)
    [] OTHER -> TRUE

RECURSIVE IsI32(_, _, _)
IsI32(g, env, t) == IF t.k = "none" THEN FALSE
                    ELSE IF Len(t.p) = 1 /\ ~t.g /\ t.p[1] \in Primitive THEN t.p[1] = B("i32")
                    ELSE LET m == Entity(g, env, t) IN m.k = "type" /\ m.d.k = "type" /\ IsI32(g, [sc |-> <<>>, ns |-> m.ns, h |-> FALSE], m.d.t)
Before_(d) == "before_main" \in Marks(d)
After(d) == "after_main" \in Marks(d)
ParamScope(d) == [v \in { d.ps[i].v : i \in 1..Len(d.ps) } |-> [k |-> "var", a |-> 0, c |-> FALSE]]
ItemOK(g, m) ==
  LET env == [sc |-> <<>>, ns |-> m.ns, h |-> FALSE] IN
  CASE m.k = "fn" -> /\ NoTwice([i \in 1..Len(m.d.ps) |-> m.d.ps[i].v])
                     /\ \A i \in 1..Len(m.d.ps) : TypeOK(g, env, m.d.ps[i].t)
                     /\ TypeOK(g, env, m.d.t)
                     /\ StmtOK(g, Open(env, ParamScope(m.d)), m.d.b)
                     /\ Jumps(m.d.b, FALSE, FALSE)
                     /\ Before_(m.d) => m.d.ps = <<>>
                     /\ After(m.d) => (Len(m.d.ps) <= 1 /\ (Len(m.d.ps) = 1 => IsI32(g, env, m.d.ps[1].t)))
    [] m.k = "var" -> ExprOK(g, env, m.d.e) /\ TypeOK(g, env, m.d.t)
    [] m.k = "type" -> m.d.k = "enum" \/ TypeOK(g, env, m.d.t)
    [] OTHER -> TRUE
WellNamed(a) == /\ a.ok
                /\ <<B("main")>> \in DOMAIN a.g /\ a.g[<<B("main")>>].k = "fn"
                /\ LET d == a.g[<<B("main")>>].d IN Len(d.ps) <= 2 /\ IsI32(a.g, [sc |-> <<>>, ns |-> <<>>, h |-> FALSE], d.t)
                /\ \A p \in DOMAIN a.g : a.g[p].k \in {"ns", "member", "builtin"} \/ ItemOK(a.g, a.g[p])

-----------------------------------------------------------------------------
(* 6. RUNNING IT                                                             *)
(* state: [m |-> variables, o |-> bytes written, c |-> how the statement     *)
(* ended, r |-> the value returned]                                          *)

EscapeCode(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 116 -> 9 [] c = 118 -> 11 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 102 -> 12
                   [] c = 101 -> 27 [] c = 48 -> 0 [] OTHER -> c
RECURSIVE Unescape(_, _)
Unescape(v, i) == IF i > Len(v) THEN <<>>
                  ELSE IF v[i] # 92 THEN <<v[i]>> \o Unescape(v, i + 1)
                  ELSE IF v[i + 1] = 120 THEN <<16 * DigitValue(v[i + 2]) + DigitValue(v[i + 3])>> \o Unescape(v, i + 4)
                  ELSE <<EscapeCode(v[i + 1])>> \o Unescape(v, i + 2)
CharOf(v) == Norm("char", Nat2W(IF Len(v) = 1 THEN v[1] ELSE EscapeCode(v[2])))
TillNul(s) == LET k == FindByte(s, 0) IN IF k = -1 THEN s ELSE Sub(s, 0, k)

Written(b, w) ==
  CASE b \in {B("put"), B("putb")} -> SubSeq(w, 1, 4)
    [] b = B("put8") -> w
    [] b = B("say") -> LET s == TillNul(w.s) IN SubSeq(Nat2W(Len(s)), 1, 4) \o s

RECURSIVE Eval(_, _, _, _)
RECURSIVE EvalAll(_, _, _, _, _)
RECURSIVE Exec(_, _, _, _)
RECURSIVE ExecAll(_, _, _, _, _)
RECURSIVE While(_, _, _, _, _)
RECURSIVE Times(_, _, _, _, _)
RECURSIVE Match(_, _, _, _, _, _)

R(v, st) == [v |-> v, st |-> st]
IntegerTypes == { B(x) : x \in {"char", "i8", "u8", "i16", "u16", "i32", "u32", "bool"} }
KindOf(v) == CHOOSE x \in {"char", "i8", "u8", "i16", "u16", "i32", "u32", "bool"} : B(x) = v
RECURSIVE Converted(_, _, _, _)
Converted(g, env, t, w) ==                         \* (i64, u64, pointers and enums: the word as it is)
  IF t.k = "none" THEN w
  ELSE IF Len(t.p) = 1 /\ ~t.g /\ t.p[1] \in Primitive THEN
         (IF t.p[1] = B("bool") THEN Bool(w # W0) ELSE IF t.p[1] \in IntegerTypes THEN Norm(KindOf(t.p[1]), w) ELSE w)
  ELSE LET m == Entity(g, env, t) IN
       IF m.k = "type" /\ m.d.k = "type" THEN Converted(g, [sc |-> <<>>, ns |-> m.ns, h |-> FALSE], m.d.t, w) ELSE w
RECURSIVE Target(_)                                \* (only brackets around one variable are evaluated here)
Target(e) == CASE e.k = "seq" -> Target(e.xs[Len(e.xs)]) [] e.k = "cast" -> Target(e.x) [] OTHER -> e
Eval(g, env, e, st) ==
  CASE e.k = "num" -> R(e.w, st)
    [] e.k = "chr" -> R(CharOf(e.v), st)
    [] e.k = "str" -> R([s |-> Unescape(e.v, 1)], st)
    [] e.k = "hole" -> R(env.h, st)
    [] e.k = "value" -> R(e.v, st)
    [] e.k = "elem" -> LET a == Eval(g, env, e.l, st)  b == Eval(g, env, e.r, a.st)  i == W2Nat(b.v)       \* of the arguments, of a text
                       IN R(IF "a" \in DOMAIN a.v THEN (IF i = Len(a.v.a) THEN W0 ELSE [s |-> a.v.a[i + 1]])
                            ELSE Norm("char", Nat2W(IF i = Len(a.v.s) THEN 0 ELSE a.v.s[i + 1])), b.st)
    [] e.k = "id" -> LET m == Entity(g, env, e) IN R(IF m.k = "member" THEN m.x ELSE st.m[m.a], st)
    [] e.k = "un" -> LET x == Eval(g, env, e.x, st)
                     IN R(CASE e.op = "-" -> I32(WNeg(x.v)) [] e.op = "~" -> I32(WNot(x.v)) [] e.op = "!" -> Bool(x.v = W0), x.st)
    [] e.k = "pow" -> LET x == Eval(g, env, e.x, st)  q == I32(WMul(x.v, x.v)) IN R(IF e.e = 2 THEN q ELSE I32(WMul(q, x.v)), x.st)
    [] e.k = "post" -> LET m == Entity(g, env, Target(e.x))  old == st.m[m.a]
                       IN R(old, [st EXCEPT !.m[m.a] = I32(IF e.op = "++" THEN WAdd(old, W1) ELSE WSub(old, W1))])
    [] e.k = "cast" -> LET x == Eval(g, env, e.x, st) IN R(IF DOMAIN x.v = {"s"} THEN x.v ELSE Converted(g, env, e.t, x.v), x.st)
    [] e.k = "bin" /\ e.op = "&&" -> LET a == Eval(g, env, e.l, st) IN IF a.v = W0 THEN a ELSE Eval(g, env, e.r, a.st)
    [] e.k = "bin" /\ e.op = "||" -> LET a == Eval(g, env, e.l, st) IN IF a.v # W0 THEN a ELSE Eval(g, env, e.r, a.st)
    [] e.k = "bin" -> LET a == Eval(g, env, e.l, st)  b == Eval(g, env, e.r, a.st) IN R(Binary(e.op, a.v, b.v), b.st)
    [] e.k = "asg" -> LET m == Entity(g, env, Target(e.l))  b == Eval(g, env, e.r, st)
                          v == IF e.op = "" THEN b.v ELSE Binary(e.op, b.st.m[m.a], b.v)
                      IN R(v, [b.st EXCEPT !.m[m.a] = v])
    [] e.k = "orelse" -> LET a == Eval(g, env, e.l, st) IN IF a.v # W0 THEN a ELSE Eval(g, env, e.r, a.st)
    [] e.k = "seq" -> LET xs == EvalAll(g, env, e.xs, 1, R(<<>>, st)) IN R(xs.v[Len(xs.v)], xs.st)
    [] e.k = "tern" -> LET c == Eval(g, env, e.c, st) IN Eval(g, env, IF c.v # W0 THEN e.a ELSE e.b, c.st)
    [] e.k = "pipe" -> LET a == Eval(g, env, e.l, st) IN Eval(g, [env EXCEPT !.h = a.v], e.r, a.st)
    [] e.k = "call" -> LET as == EvalAll(g, env, e.as, 1, R(<<>>, st))
                           f == Entity(g, env, e.f)
                       IN IF f.k = "builtin" THEN R(W0, [as.st EXCEPT !.o = @ \o Written(f.v, as.v[1])])
                          ELSE LET base == Len(as.st.m)
                                   sc == [v \in { f.d.ps[i].v : i \in 1..Len(f.d.ps) } |->
                                            [k |-> "var", a |-> base + (CHOOSE i \in 1..Len(f.d.ps) : f.d.ps[i].v = v), c |-> FALSE]]
                                   s2 == Exec(g, [sc |-> <<sc>>, ns |-> f.ns, h |-> W0], f.d.b, [as.st EXCEPT !.m = @ \o as.v, !.c = "go", !.r = W0])
                               IN R(s2.r, [s2 EXCEPT !.m = SubSeq(@, 1, base), !.c = "go"])
EvalAll(g, env, xs, i, r) == IF i > Len(xs) THEN r ELSE LET x == Eval(g, env, xs[i], r.st) IN EvalAll(g, env, xs, i + 1, R(Append(r.v, x.v), x.st))

Exec(g, env, s, st) ==
  CASE s.k = "noop" -> st
    [] s.k \in {"break", "continue"} -> [st EXCEPT !.c = s.k]
    [] s.k = "expr" -> Eval(g, env, s.e, st).st
    [] s.k = "ret" -> IF s.e.k = "none" THEN [st EXCEPT !.c = "ret"] ELSE LET x == Eval(g, env, s.e, st) IN [x.st EXCEPT !.c = "ret", !.r = x.v]
    [] s.k = "let" -> IF s.e.k = "none" THEN st
                      ELSE LET x == Eval(g, env, s.e, st)  m == env.sc[Len(env.sc)][s.v] IN [x.st EXCEPT !.m[m.a] = x.v]
    [] s.k = "if" -> LET c == Eval(g, env, s.c, st) IN Exec(g, env, IF c.v # W0 THEN s.a ELSE s.b, c.st)
    [] s.k = "while" -> While(g, env, s, [k |-> "none"], st)
    [] s.k = "init" -> Eval(g, env, s.e, st).st
    [] s.k = "for" -> LET in == Open(env, IF s.l.k = "let" THEN (s.l.v :> [k |-> "var", a |-> Len(st.m) + 1, c |-> FALSE]) ELSE Empty)
                          s1 == Exec(g, in, s.l, [st EXCEPT !.m = Append(@, W0)])
                          s2 == While(g, in, s, s.s, s1)
                      IN [s2 EXCEPT !.m = SubSeq(@, 1, Len(st.m))]
    [] s.k = "range" -> LET a == Eval(g, env, s.a, st)  b == Eval(g, env, s.b, a.st)
                        IN Times(g, env, s.s, IF WLtS(a.v, b.v) THEN W2Nat(WSub(b.v, a.v)) ELSE 0, b.st)
    [] s.k = "match" -> LET c == Eval(g, env, s.c, st)  s1 == Match(g, env, s.cs, 1, c.v, c.st) IN IF s1.c = "break" THEN [s1 EXCEPT !.c = "go"] ELSE s1
    [] s.k = "usingfor" -> Exec(g, UsingEnv(g, Open(env, Empty), s.ps, 1), s.s, st)
    [] s.k = "block" -> LET ls == Lets(s.xs)
                            sc == [v \in { ls[i].v : i \in 1..Len(ls) } |->
                                     LET i == CHOOSE i \in 1..Len(ls) : ls[i].v = v IN [k |-> "var", a |-> Len(st.m) + i, c |-> ls[i].c]]
                            s1 == ExecAll(g, Open(env, sc), s.xs, 1, [st EXCEPT !.m = @ \o [i \in 1..Len(ls) |-> W0]])
                        IN [s1 EXCEPT !.m = SubSeq(@, 1, Len(st.m))]
ExecAll(g, env, xs, i, st) ==
  IF i > Len(xs) \/ st.c # "go" THEN st
  ELSE IF xs[i].k = "using" THEN ExecAll(g, UsingEnv(g, env, xs[i].ps, 1), xs, i + 1, st)
  ELSE ExecAll(g, env, xs, i + 1, Exec(g, env, xs[i], st))
While(g, env, s, step, st) ==
  LET c == Eval(g, env, s.c, st) IN
  IF c.v = W0 THEN c.st
  ELSE LET s1 == Exec(g, env, s.a, c.st) IN
       IF s1.c = "break" THEN [s1 EXCEPT !.c = "go"]
       ELSE IF s1.c = "ret" THEN s1
       ELSE LET s2 == [s1 EXCEPT !.c = "go"] IN While(g, env, s, step, IF step.k = "none" THEN s2 ELSE Eval(g, env, step, s2).st)
Times(g, env, s, n, st) ==
  IF n = 0 THEN st
  ELSE LET s1 == Exec(g, env, s, st) IN
       IF s1.c = "break" THEN [s1 EXCEPT !.c = "go"] ELSE IF s1.c = "ret" THEN s1 ELSE Times(g, env, s, n - 1, [s1 EXCEPT !.c = "go"])
Match(g, env, cs, i, v, st) ==
  IF i > Len(cs) THEN LET S == { j \in 1..Len(cs) : cs[j].m = "else" } IN IF S = {} THEN st ELSE Exec(g, env, cs[CHOOSE j \in S : TRUE].s, st)
  ELSE IF cs[i].m = "else" THEN Match(g, env, cs, i + 1, v, st)
  ELSE LET x == Eval(g, env, cs[i].e, st) IN IF Binary(cs[i].m, v, x.v) = W1 THEN Exec(g, env, cs[i].s, x.st) ELSE Match(g, env, cs, i + 1, v, x.st)

(* the global variables first, in order of definition *)
Globals(a) == FoldLeft(LAMBDA st, n : LET p == CHOOSE p \in DOMAIN a.g : a.g[p].k = "var" /\ a.g[p].a = n
                                          d == a.g[p].d
                                          env == [sc |-> <<>>, ns |-> a.g[p].ns, h |-> W0]
                                      IN IF d.e.k = "none" THEN st ELSE [st EXCEPT !.m[n] = Eval(a.g, env, d.e, st).v],
                       [m |-> [i \in 1..a.n |-> W0], o |-> <<>>, c |-> "go", r |-> W0], [n \in 1..a.n |-> n])
(* a function the system calls: what runs before main, main with the arguments of the program, what runs after it *)
Called(a, p, as, st) == LET sc == [i \in 1..Len(as) |-> [k |-> "value", v |-> as[i]]] IN
                        Eval(a.g, [sc |-> <<>>, ns |-> <<>>, h |-> W0], [k |-> "call", f |-> [k |-> "id", p |-> p, g |-> TRUE], as |-> sc], st)
Run(a) ==
  LET n == Len(Observed.args)
      argv == [a |-> Observed.args]
      Hooks(K(_), st, as) == FoldLeft(LAMBDA x, p : IF K(a.g[p].d) THEN Called(a, p, SubSeq(as, 1, Len(a.g[p].d.ps)), x).st ELSE x, st, a.hs)
      ps == a.g[<<B("main")>>].d.ps
      m == Called(a, <<B("main")>>, CASE ps = <<>> -> <<>> [] Len(ps) = 1 -> <<argv>> [] Len(ps) = 2 -> <<Nat2W(n), argv>>, Hooks(Before_, Globals(a), <<>>))
  IN R(m.v, Hooks(After, m.st, <<m.v>>))

-----------------------------------------------------------------------------
(* 7. THE BEHAVIOUR: a program goes through the stages, and what the         *)
(* compiler and the program were seen to do is compared at the end           *)

Init == prog \in 1..Len(Progs) /\ stage = "text" /\ work = <<>>

NoBad(ts) == \A i \in 1..Len(ts) : ts[i].k # "bad"
Reject == stage' = "rejected" /\ work' = <<>>
ReadFiles == /\ stage = "text"
             /\ LET ts == Load(Progs[prog], <<1>>, {1}, <<>>)
                IN IF NoBad(ts) THEN stage' = "tokens" /\ work' = ts ELSE Reject
ExpandMacros == /\ stage = "tokens"
                /\ LET d == Definitions(work, 1, Predefined, <<>>)
                       x == Expand(d.ms, d.ts, 1, [o |-> <<>>, ok |-> d.ok], FALSE, 0)
                   IN IF d.ok /\ x.ok THEN stage' = "expanded" /\ work' = x.o \o [i \in 1..4 |-> Tok("eof", <<>>)] ELSE Reject
Parse == /\ stage = "expanded"
         /\ LET r == Items(work, 1, "eof", <<>>) IN IF r.ok THEN stage' = "tree" /\ work' = r.xs ELSE Reject
Resolve == /\ stage = "tree"
           /\ LET a == Enter([g |-> Root, n |-> 0, hs |-> <<>>, ok |-> TRUE, open |-> FALSE], <<>>, work)
              IN IF WellNamed(a) THEN stage' = (IF a.open THEN "open" ELSE "program") /\ work' = a ELSE Reject
Execute == /\ stage = "program" /\ ~Observed.mutant /\ stage' = "done" /\ work' = Run(work)
FirstDiff(a, b) == LET D == { i \in 1..Min2(Len(a), Len(b)) : a[i] # b[i] } IN IF D = {} THEN Min2(Len(a), Len(b)) + 1 ELSE CHOOSE i \in D : \A j \in D : i <= j
Rejected == -2                                     \* the compiler said why, and ended in an orderly way
(* of a mutant only this is asked: is it still a program at all? (its types are not known here)              *)
Agrees == CASE stage = "rejected" -> ~Observed.built /\ Observed.exit = Rejected
            [] stage \in {"program", "open"} -> Observed.built \/ Observed.exit = Rejected
            [] stage = "done" -> Observed.built /\ Observed.out = work.st.o /\ Observed.exit = work.v[1]
            [] OTHER -> TRUE
Compare_ == /\ stage \in {"rejected", "open", "done"} \/ (stage = "program" /\ Observed.mutant)
            /\ stage' = "judged" /\ UNCHANGED work
            /\ PrintT(IF Agrees THEN <<"OK", Observed.id>>
                      ELSE IF ~Observed.built /\ Observed.exit # Rejected THEN <<"CRASHED", Observed.id>>
                      ELSE IF stage = "rejected" THEN <<"ACCEPTED", Observed.id>>
                      ELSE IF ~Observed.built THEN <<"REJECTED", Observed.id>>
                      ELSE IF Observed.out = work.st.o THEN <<"EXITCODE", Observed.id, work.v[1]>>
                      ELSE LET d == FirstDiff(Observed.out, work.st.o)
                           IN <<"MISMATCH", Observed.id, d - 1, 0, SubSeq(work.st.o, d, Min2(Len(work.st.o), d + 15))>>)
Next == (ReadFiles \/ ExpandMacros \/ Parse \/ Resolve \/ Execute \/ Compare_) /\ UNCHANGED prog

(* the specification itself: no variable outlives its block, and the program ends in the middle of nothing *)
Tidy == stage = "done" => work.st.c = "go" /\ \A i \in 1..Len(work.st.o) : work.st.o[i] \in 0..255
Conforms == Agrees
=============================================================================
