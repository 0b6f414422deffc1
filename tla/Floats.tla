------------------------------- MODULE Floats -------------------------------
(* IEEE-754 binary32 and binary64, round to nearest even, on the words of   *)
(* module Words.  An f32 value is a word whose upper four bytes are 0.      *)
(* A finite non-zero number is handled as sign * m * 2^e with a word m.     *)
EXTENDS Words

Prec(k) == IF k = "f32" THEN 24 ELSE 53
EMin(k) == IF k = "f32" THEN -149 ELSE -1074        \* weight of the lowest subnormal bit
ExpMax(k) == IF k = "f32" THEN 255 ELSE 2047

FSign(k, w) == IF k = "f32" THEN w[4] >= 128 ELSE w[8] >= 128
FExp(k, w) == IF k = "f32" THEN (w[4] % 128) * 2 + (w[3] \div 128)
              ELSE (w[8] % 128) * 16 + (w[7] \div 16)
FFrac(k, w) == IF k = "f32" THEN << w[1], w[2], w[3] % 128, 0,0,0,0,0 >>
               ELSE << w[1], w[2], w[3], w[4], w[5], w[6], w[7] % 16, 0 >>
FIsZero(k, w) == FExp(k, w) = 0 /\ FFrac(k, w) = W0
FIsInf(k, w) == FExp(k, w) = ExpMax(k) /\ FFrac(k, w) = W0
FIsNaN(k, w) == FExp(k, w) = ExpMax(k) /\ FFrac(k, w) # W0
FMant(k, w) == LET f == FFrac(k, w) IN
               IF FExp(k, w) = 0 THEN f
               ELSE IF k = "f32" THEN [f EXCEPT ![3] = @ + 128] ELSE [f EXCEPT ![7] = @ + 16]
FLsb(k, w) == EMin(k) + (IF FExp(k, w) = 0 THEN 0 ELSE FExp(k, w) - 1)

FPack(k, s, ex, frac) ==
  IF k = "f32" THEN << frac[1], frac[2], (frac[3] % 128) + (ex % 2) * 128, (ex \div 2) + (IF s THEN 128 ELSE 0), 0,0,0,0 >>
  ELSE << frac[1], frac[2], frac[3], frac[4], frac[5], frac[6], (frac[7] % 16) + (ex % 16) * 16, (ex \div 16) + (IF s THEN 128 ELSE 0) >>
FZero(k, s) == FPack(k, s, 0, W0)
FInf(k, s) == FPack(k, s, ExpMax(k), W0)
FNaN(k) == IF k = "f32" THEN <<0,0,192,127,0,0,0,0>> ELSE <<0,0,0,0,0,0,248,127>>

\* index of the highest set bit of a non-zero byte / word
ByteTop(b) == IF b >= 128 THEN 7 ELSE IF b >= 64 THEN 6 ELSE IF b >= 32 THEN 5 ELSE IF b >= 16 THEN 4
              ELSE IF b >= 8 THEN 3 ELSE IF b >= 4 THEN 2 ELSE IF b >= 2 THEN 1 ELSE 0
RECURSIVE TopFrom(_, _)
TopFrom(w, i) == IF w[i] > 0 THEN 8*(i-1) + ByteTop(w[i]) ELSE TopFrom(w, i-1)
HighBit(w) == TopFrom(w, 8)

ShlAny(w, n) == IF n > 63 THEN W0 ELSE WShl(w, n)
ShrAny(w, n) == IF n > 63 THEN W0 ELSE WShrU(w, n)
LowBits(w, n) == IF n > 63 THEN w ELSE WSub(w, WShl(WShrU(w, n), n))   \* w mod 2^n
PowW(n) == WShl(W1, n)

\* the number (-1)^s * (m + something in (0,1) if st) * 2^e, rounded
FRound(k, s, m, e, st) ==
  IF m = W0 THEN FZero(k, s)
  ELSE
  LET p == Prec(k)
      q0 == e + HighBit(m) - (p - 1)
      q == IF q0 < EMin(k) THEN EMin(k) ELSE q0
      sh == q - e
      man == IF sh <= 0 THEN ShlAny(m, -sh) ELSE ShrAny(m, sh)
      half == sh > 0 /\ sh <= 64 /\ BitAt(m, sh - 1) = 1
      rest == st \/ (sh > 1 /\ LowBits(m, sh - 1) # W0)
      up == half /\ (rest \/ man[1] % 2 = 1)
      mr == IF up THEN WAdd(man, W1) ELSE man
      carry == mr = PowW(p)
      mf == IF carry THEN PowW(p-1) ELSE mr
      ex == IF WLtU(mf, PowW(p-1)) THEN 0 ELSE (q + (IF carry THEN 1 ELSE 0)) - EMin(k) + 1
  IN IF ex >= ExpMax(k) THEN FInf(k, s) ELSE FPack(k, s, ex, mf)

FNeg(k, a) == IF k = "f32" THEN [a EXCEPT ![4] = (@ + 128) % 256] ELSE [a EXCEPT ![8] = (@ + 128) % 256]

\* shift right by n keeping track of lost bits
ShrSt(w, n) == << ShrAny(w, n), n > 0 /\ LowBits(w, n) # W0 >>

FAdd(k, a, b) ==
  IF FIsNaN(k, a) \/ FIsNaN(k, b) THEN FNaN(k)
  ELSE IF FIsInf(k, a) THEN (IF FIsInf(k, b) /\ FSign(k, a) # FSign(k, b) THEN FNaN(k) ELSE a)
  ELSE IF FIsInf(k, b) THEN b
  ELSE IF FIsZero(k, a) /\ FIsZero(k, b) THEN (IF FSign(k, a) /\ FSign(k, b) THEN a ELSE FZero(k, FALSE))
  ELSE IF FIsZero(k, a) THEN b ELSE IF FIsZero(k, b) THEN a
  ELSE
  LET swap == FLsb(k, a) < FLsb(k, b)
      x == IF swap THEN b ELSE a          \* x has the higher exponent
      y == IF swap THEN a ELSE b
      G == 9                              \* guard bits
      mx == WShl(FMant(k, x), G)  my0 == WShl(FMant(k, y), G)
      d == FLsb(k, x) - FLsb(k, y)
      sy == ShrSt(my0, d)
      e == FLsb(k, x) - G
  IN IF FSign(k, x) = FSign(k, y)
     THEN FRound(k, FSign(k, x), WAdd(mx, sy[1]), e, sy[2])
     ELSE LET my == IF sy[2] THEN WAdd(sy[1], W1) ELSE sy[1]    \* round the subtrahend up ...
          IN IF mx = my THEN FZero(k, FALSE)
             ELSE IF WLtU(my, mx) THEN FRound(k, FSign(k, x), WSub(mx, my), e, sy[2])  \* ... and add the lost part
             ELSE FRound(k, FSign(k, y), WSub(my, mx), e, FALSE)
FSub(k, a, b) == FAdd(k, a, IF FIsNaN(k, b) THEN b ELSE FNeg(k, b))

\* bits 48.. of the product of two 53-bit numbers, and whether a lower bit is set
MulHi(a, b) ==
  LET c(n) == LET lo == IF n > 7 THEN n - 6 ELSE 1
                  hi == IF n > 7 THEN 7 ELSE n
                  s[i \in (lo-1)..7] == IF i < lo THEN 0 ELSE s[i-1] + a[i]*b[n+1-i]
              IN IF hi < lo THEN 0 ELSE s[hi]
      \* digit sums of the 14-byte product, then carries
      p == [n \in 1..14 |-> IF n > 13 THEN 0 ELSE c(n)]
      r[n \in 0..14] == IF n = 0 THEN <<0, <<>>>>
                        ELSE LET t == p[n] + r[n-1][1] IN << t \div 256, Append(r[n-1][2], t % 256) >>
      d == r[14][2]
  IN << << d[7], d[8], d[9], d[10], d[11], d[12], d[13], d[14] >>, \E i \in 1..6 : d[i] # 0 >>

FMul(k, a, b) ==
  LET s == FSign(k, a) # FSign(k, b) IN
  IF FIsNaN(k, a) \/ FIsNaN(k, b) THEN FNaN(k)
  ELSE IF FIsInf(k, a) \/ FIsInf(k, b) THEN (IF FIsZero(k, a) \/ FIsZero(k, b) THEN FNaN(k) ELSE FInf(k, s))
  ELSE IF FIsZero(k, a) \/ FIsZero(k, b) THEN FZero(k, s)
  ELSE LET ma == FMant(k, a)  mb == FMant(k, b)
           na == 52 - HighBit(ma)  nb == 52 - HighBit(mb)      \* normalise both to 53 bits
           pr == MulHi(WShl(ma, na), WShl(mb, nb))
       IN FRound(k, s, pr[1], FLsb(k, a) - na + FLsb(k, b) - nb + 48, pr[2])

\* quotient of non-zero words as <<word with at least 60 significant bits, exponent, sticky>>
RECURSIVE DivBits(_, _, _, _)
DivBits(r, b, n, q) == IF n = 0 THEN <<q, r>>
                       ELSE LET r2 == WShl(r, 1)  ge == ~WLtU(r2, b)
                            IN DivBits(IF ge THEN WSub(r2, b) ELSE r2, b, n-1, IF ge THEN [WShl(q,1) EXCEPT ![1] = @ + 1] ELSE WShl(q, 1))
DivHi(a, b) ==
  LET ha == HighBit(a)  hb == HighBit(b)
      an == WShl(a, 62 - ha)  bn == WShl(b, 62 - hb)     \* both in [2^62, 2^63)
      ge == ~WLtU(an, bn)
      x == DivBits(IF ge THEN WSub(an, bn) ELSE an, bn, 60, IF ge THEN W1 ELSE W0)
  IN << x[1], ha - hb - 60, x[2] # W0 >>
FDivW(k, s, a, b, e) == LET d == DivHi(a, b) IN FRound(k, s, d[1], e + d[2], d[3])

FDiv(k, a, b) ==
  LET s == FSign(k, a) # FSign(k, b) IN
  IF FIsNaN(k, a) \/ FIsNaN(k, b) THEN FNaN(k)
  ELSE IF FIsInf(k, a) THEN (IF FIsInf(k, b) THEN FNaN(k) ELSE FInf(k, s))
  ELSE IF FIsInf(k, b) THEN FZero(k, s)
  ELSE IF FIsZero(k, b) THEN (IF FIsZero(k, a) THEN FNaN(k) ELSE FInf(k, s))
  ELSE IF FIsZero(k, a) THEN FZero(k, s)
  ELSE FDivW(k, s, FMant(k, a), FMant(k, b), FLsb(k, a) - FLsb(k, b))

FConv(fk, tk, a) ==
  IF FIsNaN(fk, a) THEN FNaN(tk)
  ELSE IF FIsInf(fk, a) THEN FInf(tk, FSign(fk, a))
  ELSE FRound(tk, FSign(fk, a), FMant(fk, a), FLsb(fk, a), FALSE)

\* w is a sign- or zero-extended integer
I2F(k, signed, w) == IF signed /\ WSign(w) THEN FRound(k, TRUE, WNeg(w), 0, FALSE) ELSE FRound(k, FALSE, w, 0, FALSE)
\* truncation towards zero; the caller keeps the argument in range
F2I(k, a) == LET m == FMant(k, a)  e == FLsb(k, a)
                 v == IF e >= 0 THEN ShlAny(m, e) ELSE ShrAny(m, -e)
             IN IF FSign(k, a) THEN WNeg(v) ELSE v

\* a decimal literal m / 10^d, read as binary64 and then, if need be, narrowed
RECURSIVE Pow10W(_)
Pow10W(d) == IF d = 0 THEN W1 ELSE WMul(Pow10W(d-1), Nat2W(10))
FDec(k, m, d) == LET x == IF m = W0 THEN FZero("f64", FALSE) ELSE FDivW("f64", FALSE, m, Pow10W(d), 0)
                 IN IF k = "f64" THEN x ELSE FConv("f64", "f32", x)

\* total order on non-NaN values as signed magnitudes
FLess(k, a, b) ==
  IF FIsZero(k, a) /\ FIsZero(k, b) THEN FALSE
  ELSE IF FSign(k, a) # FSign(k, b) THEN FSign(k, a)
  ELSE IF FSign(k, a) THEN WLtU(b, a) ELSE WLtU(a, b)
FEq(k, a, b) == a = b \/ (FIsZero(k, a) /\ FIsZero(k, b))
FRel(op, k, a, b) ==
  LET nan == FIsNaN(k, a) \/ FIsNaN(k, b) IN
  CASE op = "==" -> ~nan /\ FEq(k, a, b)
    [] op = "!=" -> nan \/ ~FEq(k, a, b)
    [] op = "<"  -> ~nan /\ FLess(k, a, b)
    [] op = ">"  -> ~nan /\ FLess(k, b, a)
    [] op = "<=" -> ~nan /\ (FLess(k, a, b) \/ FEq(k, a, b))
    [] op = ">=" -> ~nan /\ (FLess(k, b, a) \/ FEq(k, a, b))
=============================================================================
