-------------------------------- MODULE Text --------------------------------
(* Text as sequences of byte values: the vocabulary of the string, format    *)
(* and pattern specifications.  Positions are 0-based like the library's.    *)
EXTENDS Integers, Sequences, FiniteSets, Words

NilStr == <<-1>>                 \* how a nil string is written down
(* the bytes of a TLA+ string *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in { SubSeq(Printable, k, k) : k \in 1..95 } |-> 31 + CHOOSE k \in 1..95 : SubSeq(Printable, k, k) = c]
B(t) == [i \in 1..Len(t) |-> CodeOf[SubSeq(t, i, i)]]
At(s, i) == s[i + 1]
Sub(s, from, to) == SubSeq(s, from + 1, to)          \* [from, to)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Rng(s) == { s[i] : i \in 1..Len(s) }

(* is p found in s at position i *)
Here(s, p, i) == i + Len(p) <= Len(s) /\ \A j \in 1..Len(p) : s[i + j] = p[j]
Find(s, p) == LET S == { i \in 0..Len(s) : Here(s, p, i) } IN IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i <= j
FindByte(s, c) == LET S == { i \in 0..(Len(s) - 1) : At(s, i) = c } IN IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i <= j
FindLast(s, c) == LET S == { i \in 0..(Len(s) - 1) : At(s, i) = c } IN IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i >= j
(* length of the longest prefix inside / outside a set of bytes *)
Span(s, set) == LET S == { i \in 0..(Len(s) - 1) : At(s, i) \notin set } IN IF S = {} THEN Len(s) ELSE CHOOSE i \in S : \A j \in S : i <= j
(* everything up to the first byte of the set: pieces of s, one more than separators *)
RECURSIVE Split(_, _)
Split(s, set) == LET n == Span(s, Rng(s) \ set) IN
                 IF n = Len(s) THEN <<s>> ELSE <<Sub(s, 0, n)>> \o Split(Sub(s, n + 1, Len(s)), set)
(* pieces without the separators, empty ones left out *)
Tokens(s, set) == SelectSeq(Split(s, set), LAMBDA t : t # <<>>)
(* -1, 0, 1 in the order of unsigned bytes *)
Compare(a, b) == LET n == Min2(Len(a), Len(b))
                     D == { i \in 1..n : a[i] # b[i] }
                 IN IF D = {} THEN (IF Len(a) = Len(b) THEN 0 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1)
                    ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN IF a[i] < b[i] THEN -1 ELSE 1
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Flat(Tail(l))

(* character classes of ASCII *)
Space == {9, 10, 11, 12, 13, 32}
Digits == 48..57
Upper == 65..90
Lower == 97..122
Alpha == Upper \cup Lower
Trim(s) == LET a == Span(s, Space)
               R == Reverse(Sub(s, a, Len(s)))
           IN Reverse(Sub(R, Span(R, Space), Len(R)))

(* numerals *)
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
(* an unsigned word divided by a small number: quotient and remainder, top byte first *)
RECURSIVE DivSmall(_, _, _, _)
DivSmall(w, b, i, r) == IF i = 0 THEN <<w, r>> ELSE LET x == r * 256 + w[i] IN DivSmall([w EXCEPT ![i] = x \div b], b, i - 1, x % b)
RECURSIVE Numeral(_, _, _)
Numeral(w, b, acc) == LET qr == DivSmall(w, b, 8, 0)  a == <<Digit(qr[2])>> \o acc IN IF qr[1] = W0 THEN a ELSE Numeral(qr[1], b, a)
UNumeral(w, b) == Numeral(w, b, <<>>)
Negative(w) == w[8] >= 128
SNumeral(w) == IF Negative(w) THEN <<45>> \o UNumeral(WNeg(w), 10) ELSE UNumeral(w, 10)
INumeral(n) == SNumeral(Int2W(n))
(* reading a decimal numeral, modulo 2^64 *)
RECURSIVE ReadDigits(_, _)
ReadDigits(s, acc) == IF s = <<>> \/ Head(s) \notin Digits THEN acc ELSE ReadDigits(Tail(s), WAdd(WMul(acc, Nat2W(10)), Nat2W(Head(s) - 48)))
ReadInt(s) == LET t == Sub(s, Span(s, Space), Len(s)) IN
              IF t # <<>> /\ Head(t) = 45 THEN WNeg(ReadDigits(Tail(t), W0))
              ELSE IF t # <<>> /\ Head(t) = 43 THEN ReadDigits(Tail(t), W0) ELSE ReadDigits(t, W0)
Low32(w) == LET e == IF w[4] >= 128 THEN 255 ELSE 0 IN <<w[1], w[2], w[3], w[4], e, e, e, e>>
(* the first digits of m / 2^k, truncated, n of them after the point *)
RECURSIVE Decimals(_, _, _)
Decimals(x, den, n) == IF n = 0 THEN <<>> ELSE <<48 + (x * 10) \div den>> \o Decimals((x * 10) % den, den, n - 1)
Decimal(num, k, n) == LET neg == num < 0  m == IF neg THEN -num ELSE num  den == 2^k IN
    (IF neg THEN <<45>> ELSE <<>>) \o INumeral(m \div den) \o (IF n > 0 THEN <<46>> ELSE <<>>) \o Decimals(m % den, den, n)
=============================================================================
