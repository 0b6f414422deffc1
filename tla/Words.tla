------------------------------- MODULE Words -------------------------------
(* Machine words of CSpydr programs.                                        *)
(*                                                                          *)
(* TLC's integers are 32 bits wide, CSpydr's are up to 64, so a word is a   *)
(* little-endian tuple of 8 bytes.  Every operator below is ordinary        *)
(* school-book arithmetic on such tuples.  A scalar VALUE of the abstract   *)
(* machine is always such a word: signed types sign-extended, unsigned      *)
(* types zero-extended from their width (Norm).                             *)
EXTENDS Integers, Sequences, Bitwise

W0 == <<0,0,0,0,0,0,0,0>>
W1 == <<1,0,0,0,0,0,0,0>>
WM == <<255,255,255,255,255,255,255,255>>

\* a non-negative TLC integer as a word
Nat2W(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256, 0,0,0,0 >>
\* a word known to be < 2^31 as a TLC integer
W2Nat(w) == w[1] + 256*w[2] + 65536*w[3] + 16777216*w[4]
SmallW(w) == w[4] < 128 /\ w[5] = 0 /\ w[6] = 0 /\ w[7] = 0 /\ w[8] = 0
Int2W(n) == IF n >= 0 THEN Nat2W(n)
            ELSE LET m == -(n+1) IN << 255 - (m % 256), 255 - ((m \div 256) % 256),
                    255 - ((m \div 65536) % 256), 255 - ((m \div 16777216) % 256), 255,255,255,255 >>

WNot(a) == << 255-a[1], 255-a[2], 255-a[3], 255-a[4], 255-a[5], 255-a[6], 255-a[7], 255-a[8] >>

AddC(a, b, c) ==
  LET s1 == a[1]+b[1]+c
      s2 == a[2]+b[2]+(s1 \div 256)
      s3 == a[3]+b[3]+(s2 \div 256)
      s4 == a[4]+b[4]+(s3 \div 256)
      s5 == a[5]+b[5]+(s4 \div 256)
      s6 == a[6]+b[6]+(s5 \div 256)
      s7 == a[7]+b[7]+(s6 \div 256)
      s8 == a[8]+b[8]+(s7 \div 256)
  IN << s1 % 256, s2 % 256, s3 % 256, s4 % 256, s5 % 256, s6 % 256, s7 % 256, s8 % 256 >>

WAdd(a, b) == AddC(a, b, 0)
WSub(a, b) == AddC(a, WNot(b), 1)
WNeg(a)    == AddC(W0, WNot(a), 1)

WMul(a, b) ==
  LET c1 == a[1]*b[1]
      c2 == a[1]*b[2] + a[2]*b[1] + (c1 \div 256)
      c3 == a[1]*b[3] + a[2]*b[2] + a[3]*b[1] + (c2 \div 256)
      c4 == a[1]*b[4] + a[2]*b[3] + a[3]*b[2] + a[4]*b[1] + (c3 \div 256)
      c5 == a[1]*b[5] + a[2]*b[4] + a[3]*b[3] + a[4]*b[2] + a[5]*b[1] + (c4 \div 256)
      c6 == a[1]*b[6] + a[2]*b[5] + a[3]*b[4] + a[4]*b[3] + a[5]*b[2] + a[6]*b[1] + (c5 \div 256)
      c7 == a[1]*b[7] + a[2]*b[6] + a[3]*b[5] + a[4]*b[4] + a[5]*b[3] + a[6]*b[2] + a[7]*b[1] + (c6 \div 256)
      c8 == a[1]*b[8] + a[2]*b[7] + a[3]*b[6] + a[4]*b[5] + a[5]*b[4] + a[6]*b[3] + a[7]*b[2] + a[8]*b[1] + (c7 \div 256)
  IN << c1 % 256, c2 % 256, c3 % 256, c4 % 256, c5 % 256, c6 % 256, c7 % 256, c8 % 256 >>

WAnd(a, b) == << a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4], a[5] & b[5], a[6] & b[6], a[7] & b[7], a[8] & b[8] >>
WOr(a, b)  == << a[1] | b[1], a[2] | b[2], a[3] | b[3], a[4] | b[4], a[5] | b[5], a[6] | b[6], a[7] | b[7], a[8] | b[8] >>
WXor(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4], a[5] ^^ b[5], a[6] ^^ b[6], a[7] ^^ b[7], a[8] ^^ b[8] >>

\* unsigned comparison, most significant byte first
RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i = 0 THEN FALSE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtFrom(a, b, i-1)
WLtU(a, b) == LtFrom(a, b, 8)
Flip(a) == [a EXCEPT ![8] = (@ + 128) % 256]
WLtS(a, b) == LtFrom(Flip(a), Flip(b), 8)
WSign(a) == a[8] >= 128

Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16
             [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128 [] n = 8 -> 256

\* shift left by n in 0..63
WShl(a, n) ==
  LET k == n \div 8  m == Pow2(n % 8)
      g(i) == IF i < 1 THEN 0 ELSE a[i]
      f(i) == ((g(i-k)*m) % 256) + ((g(i-k-1)*m) \div 256)
  IN << f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8) >>

\* shift right by n in 0..63, vacated bits taken from fill (0 or 255)
WShr(a, n, fill) ==
  LET k == n \div 8  m == Pow2(8 - (n % 8))
      g(i) == IF i > 8 THEN fill ELSE a[i]
      f(i) == ((g(i+k)*m) \div 256) + ((g(i+k+1)*m) % 256)
  IN << f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8) >>
WShrU(a, n) == WShr(a, n, 0)
WShrS(a, n) == WShr(a, n, IF WSign(a) THEN 255 ELSE 0)

\* unsigned long division, one bit at a time: <<quotient, remainder>>
BitAt(a, i) == (a[(i \div 8) + 1] \div Pow2(i % 8)) % 2
RECURSIVE DivStep(_, _, _, _, _)
DivStep(a, b, i, q, r) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET over == r[8] >= 128
           r2 == [WShl(r, 1) EXCEPT ![1] = @ + BitAt(a, i)]
           ge == over \/ ~WLtU(r2, b)
       IN DivStep(a, b, i-1,
                  IF ge THEN [q EXCEPT ![(i \div 8) + 1] = @ + Pow2(i % 8)] ELSE q,
                  IF ge THEN WSub(r2, b) ELSE r2)
TopBit(a) == IF a[8]>0 THEN 63 ELSE IF a[7]>0 THEN 55 ELSE IF a[6]>0 THEN 47 ELSE IF a[5]>0 THEN 39
             ELSE IF a[4]>0 THEN 31 ELSE IF a[3]>0 THEN 23 ELSE IF a[2]>0 THEN 15 ELSE 7
WDivModU(a, b) ==
  IF SmallW(a) /\ SmallW(b)
  THEN << Nat2W(W2Nat(a) \div W2Nat(b)), Nat2W(W2Nat(a) % W2Nat(b)) >>
  ELSE DivStep(a, b, TopBit(a), W0, W0)
WAbs(a) == IF WSign(a) THEN WNeg(a) ELSE a
\* signed division truncates towards zero; the remainder has the sign of the dividend
WDivS(a, b) == LET q == WDivModU(WAbs(a), WAbs(b))[1]
               IN IF WSign(a) # WSign(b) THEN WNeg(q) ELSE q
WModS(a, b) == LET r == WDivModU(WAbs(a), WAbs(b))[2]
               IN IF WSign(a) THEN WNeg(r) ELSE r
WDivU(a, b) == WDivModU(a, b)[1]
WModU(a, b) == WDivModU(a, b)[2]

SignedT == {"i8", "i16", "i32", "i64", "char", "enum"}
UnsignedT == {"u8", "u16", "u32", "u64", "bool", "ptr", "fn"}
ScalarSize(k) == CASE k \in {"i8","u8","char","bool"} -> 1
                   [] k \in {"i16","u16"} -> 2
                   [] k \in {"i32","u32","f32","enum"} -> 4
                   [] k \in {"i64","u64","f64","ptr","fn"} -> 8

Ext(w, n, x) == CASE n = 1 -> << w[1], x, x, x, x, x, x, x >>
                  [] n = 2 -> << w[1], w[2], x, x, x, x, x, x >>
                  [] n = 4 -> << w[1], w[2], w[3], w[4], x, x, x, x >>
                  [] n = 8 -> << w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8] >>
Norm(k, w) == LET n == ScalarSize(k)
              IN Ext(w, n, IF k \in SignedT /\ w[n] >= 128 THEN 255 ELSE 0)
\* a value of a narrow type lives in a 32-bit register until it is stored
\* or converted ("integer promotion")
Reg(k, w) == IF ScalarSize(k) < 4 THEN Norm("i32", w) ELSE Norm(k, w)
=============================================================================
