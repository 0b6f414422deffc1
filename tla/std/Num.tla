-------------------------------- MODULE Num --------------------------------
(* std::math, std::array, std::algorithm, std::uuid, std::random, the option *)
(* and bit macros: functions on numbers.  The object holds the generator's   *)
(* state and the hashes seen so far.                                         *)
EXTENDS Text

U32(w) == <<w[1], w[2], w[3], w[4], 0, 0, 0, 0>>
SE(w, n) == \* the low n bytes, sign-extended
  LET e == IF w[n] >= 128 THEN 255 ELSE 0 IN [i \in 1..8 |-> IF i <= n THEN w[i] ELSE e]
ZE(w, n) == [i \in 1..8 |-> IF i <= n THEN w[i] ELSE 0]
Abs(w) == IF Negative(w) THEN WNeg(w) ELSE w
(* x^k by squaring *)
RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN W1 ELSE LET h == Power(x, k \div 2)  q == WMul(h, h) IN IF k % 2 = 1 THEN WMul(q, x) ELSE q
SDiv(a, d) == << WDivS(a, d), WModS(a, d) >>         \* towards zero
(* the representative in [0, |d|) *)
Modulo(a, d) == LET r == SDiv(a, d)[2] IN IF Negative(r) THEN WAdd(r, Abs(d)) ELSE r
RECURSIVE SumW(_)
SumW(l) == IF l = <<>> THEN W0 ELSE WAdd(Head(l), SumW(Tail(l)))
Swap(w, n) == [i \in 1..8 |-> IF i <= n THEN w[n + 1 - i] ELSE 0]
Bit(b) == IF b THEN 1 ELSE 0
TestBit(w, p) == WAnd(WShr(w, p, 0), W1) = W1

(* the random number generator: x[k] := x[k] + x[k - lag], the sum's upper 31 bits come out *)
LCG64(w) == WAdd(WMul(w, <<45, 127, 149, 76, 45, 244, 81, 88>>), W1)
LCG32(w) == [ U32(WAdd(WMul(U32(w), <<109, 78, 198, 65, 0, 0, 0, 0>>), Nat2W(12345))) EXCEPT ![4] = @ % 128 ]
RECURSIVE SeedTable(_, _, _)
SeedTable(s, n, acc) == IF n = 0 THEN acc ELSE LET t == LCG64(s) IN SeedTable(t, n - 1, Append(acc, <<t[5], t[6], t[7], t[8], 0, 0, 0, 0>>))
Seeded(n, w) == IF n = 0 THEN [n |-> 0, i |-> 0, j |-> 0, x |-> <<U32(w)>>]
  ELSE LET t == SeedTable(U32(w), n, <<>>) IN [n |-> n, i |-> IF n = 31 \/ n = 7 THEN 3 ELSE 1, j |-> 0, x |-> [t EXCEPT ![1] = WOr(@, W1)]]
Step(g) == IF g.n = 0 THEN LET v == LCG32(g.x[1]) IN <<[g EXCEPT !.x[1] = v], v>>
  ELSE LET v == U32(WAdd(g.x[g.i + 1], g.x[g.j + 1])) IN
       << [g EXCEPT !.x[g.i + 1] = v, !.i = (@ + 1) % g.n, !.j = (@ + 1) % g.n], WShr(v, 1, 0) >>
RECURSIVE Steps(_, _)
Steps(g, k) == IF k = 0 THEN << g, <<>> >> ELSE LET a == Step(g)  b == Steps(a[1], k - 1) IN << b[1], <<a[2]>> \o b[2] >>
RECURSIVE Digest(_)      \* a sum over several values, each turned by its position
Digest(l) == IF l = <<>> THEN W0 ELSE WAdd(Head(l), WMul(Digest(Tail(l)), Nat2W(31)))
(* the state before any seeding is the one seed 1 gives *)
Fresh == Seeded(31, W1)
SizeOf(n) == IF n < 8 THEN -1 ELSE IF n < 32 THEN 0 ELSE IF n < 64 THEN 7 ELSE IF n < 128 THEN 15 ELSE IF n < 256 THEN 31 ELSE 63

HexC(d) == IF d < 10 THEN 48 + d ELSE 87 + d
UuidText(u) == Flat([i \in 1..16 |-> (IF i \in {5, 7, 9, 11} THEN <<45>> ELSE <<>>) \o <<HexC(u[i] \div 16), HexC(u[i] % 16)>>])

Start(cfg) == [g |-> Fresh, saved |-> [k \in {0, 1} |-> Fresh], cur |-> -1, seen |-> {}]
Ret(s, r) == { [s |-> s, r |-> r] }
Post(e, s) ==
  LET a == e.a IN
  CASE e.op = "pow"   -> Ret(s, << Power(SE(a[1], 4), a[2]) >>)
    [] e.op = "div"   -> LET r == SDiv(a[1], a[2]) IN Ret(s, <<r[1], r[2]>>)
    [] e.op = "div32" -> LET r == SDiv(SE(a[1], 4), SE(a[2], 4)) IN Ret(s, <<SE(r[1], 4), SE(r[2], 4)>>)
    [] e.op = "mod"   -> Ret(s, << Modulo(a[1], a[2]) >>)
    [] e.op = "abs"   -> Ret(s, << SE(Abs(SE(a[1], 4)), 4), Abs(a[1]), Abs(a[1]), SE(Abs(SE(a[1], 4)), 4) >>)
    [] e.op = "minmax" -> LET x == SE(a[1], 4)  y == SE(a[2], 4) IN
         Ret(s, << IF WLtS(a[1], a[2]) THEN a[2] ELSE a[1], IF WLtS(a[1], a[2]) THEN a[1] ELSE a[2],
                   IF WLtS(x, y) THEN y ELSE x, IF WLtS(x, y) THEN x ELSE y, IF WLtU(a[1], a[2]) THEN a[2] ELSE a[1] >>)
    [] e.op = "limits" -> LET M(n) == [i \in 1..8 |-> IF i < n THEN 255 ELSE IF i = n THEN 127 ELSE 0] IN
         Ret(s, << M(1), WNot(M(1)), M(2), WNot(M(2)), M(4), WNot(M(4)), M(8), WNot(M(8)), ZE(WM, 1), W0, ZE(WM, 2), W0, ZE(WM, 4), W0, WM, W0,
                   Nat2W(8), Nat2W(8) >>)
    [] e.op = "sum"   -> (* the same five words as arrays of i8, u8, i16, u16, i32, u32, i64, u64 *)
         LET all(F(_)) == SumW([i \in 1..5 |-> F(a[i])])
             s1(w) == SE(w, 1)  z1(w) == ZE(w, 1)  s2(w) == SE(w, 2)  z2(w) == ZE(w, 2)  s4(w) == SE(w, 4)  z4(w) == ZE(w, 4)  id(w) == w
         IN Ret(s, << all(s1), all(z1), all(s2), all(z2), all(s4), all(z4), all(id), all(id) >>)
    [] e.op = "ends"  -> Ret(s, << a[1], a[5], WAdd(a[1], a[2]), SumW(<<a[1], a[2], a[3]>>), SumW(<<a[1], a[2], a[3], a[4]>>), SumW(<<a[1], a[2], a[3], a[4], a[5]>>) >>)
    [] e.op = "bswap" -> Ret(s, << Swap(a[1], 2), Swap(a[1], 4), Swap(a[1], 8), Swap(a[1], 2), Swap(a[1], 4), Swap(a[1], 2), Swap(a[1], 4) >>)
    [] e.op \in {"hash", "hashstr"} -> (* the same bytes always have the same hash *)
         LET old == { h \in s.seen : h.b = a[1] } IN
         IF old # {} THEN { [s |-> s, r |-> <<h.h>>] : h \in old }
         ELSE { [s |-> [s EXCEPT !.seen = @ \cup {[b |-> a[1], h |-> e.r[1]]}], r |-> e.r] }
    [] e.op = "bits"  -> (* check, toggle, set to a[3] *)
         LET w == a[1]  p == a[2]  m == WShl(W1, p) IN
         Ret(s, << Bit(TestBit(w, p)), WXor(w, m), IF a[3] = 1 THEN WOr(w, m) ELSE WAnd(w, WNot(m)) >>)
    [] e.op = "swap"  -> Ret(s, << a[2], a[1], a[2], a[1] >>)
    [] e.op = "either" -> Ret(s, << IF a[1] # W0 THEN a[1] ELSE a[2] >>)
    [] e.op = "option" -> (* some(a1): is it some, none, the value or another; none: likewise *)
         Ret(s, << 1, 0, a[1], a[1], 0, 1, a[2] >>)
    [] e.op = "uuid"  -> LET u == a[1] IN Ret(s, << UuidText(u), u, u >>)
    [] e.op = "uuidgen" -> (* two fresh ones: sixteen bytes each, not the same *)
         IF Len(e.r) = 2 /\ Len(e.r[1]) = 36 /\ e.r[1] # e.r[2] THEN { [s |-> s, r |-> e.r] } ELSE Ret(s, << 0 >>)
    [] e.op = "lcg"   -> Ret(s, << LCG32(a[1]), LCG64(a[1]) >>)
    [] e.op = "seed"  -> Ret([s EXCEPT !.g = Seeded(s.g.n, a[1])], <<0>>)
    [] e.op = "rand"  -> LET q == Steps(s.g, a[1]) IN Ret([s EXCEPT !.g = q[1]], << q[2][a[1]], Digest(q[2]) >>)
    [] e.op = "init"  -> (* a state of its own in slot a[1], of a[3] bytes *)
         LET n == SizeOf(a[3]) IN
         IF n = -1 THEN Ret(s, <<0>>)
         ELSE Ret([s EXCEPT !.saved = [k \in {0, 1} |-> IF k = s.cur THEN s.g ELSE s.saved[k]], !.cur = a[1], !.g = Seeded(n, a[2])], <<1>>)
    [] e.op = "set"   -> (* go on with the state in a slot *)
         LET keep == [k \in {0, 1} |-> IF k = s.cur THEN s.g ELSE s.saved[k]] IN
         Ret([s EXCEPT !.saved = keep, !.cur = a[1], !.g = keep[a[1]]], <<1>>)
Enabled(e, s) == TRUE
Inv(s) == s.g.n \in {0, 7, 15, 31, 63} /\ s.g.i >= 0 /\ (s.g.n = 0 \/ (s.g.i < s.g.n /\ s.g.j < s.g.n))
=============================================================================
