------------------------------- MODULE Float -------------------------------
(* IEEE-754 binary32 ("R", REAL) and binary64 ("L", LREAL) as exact values.  *)
(* A decoded number is [k |-> "nan" | "inf" | "fin", neg, m, e] with value    *)
(* (-1)^neg * m * 2^e, m a natural BigInt. Rounding is not computed but       *)
(* decided: Nearest(f, x, n, d) says whether x is the rounding of n/d.        *)
EXTENDS BigInt, TLC

(* "T" is a tiny format for exhaustive checks                                *)
Prec(f) == CASE f = "R" -> 24 [] f = "L" -> 53 [] f = "T" -> 3
EMin(f) == CASE f = "R" -> -149 [] f = "L" -> -1074 [] f = "T" -> -4
EMax(f) == CASE f = "R" -> 104 [] f = "L" -> 971 [] f = "T" -> 2
ExpOnes(f) == IF f = "R" THEN 255 ELSE 2047

Exponent(f, b) == IF f = "R" THEN (b[4] % 128) * 2 + (b[3] \div 128) ELSE (b[8] % 128) * 16 + (b[7] \div 16)
Fraction(f, b) == IF f = "R" THEN Big(b[1] + 256 * b[2] + 65536 * (b[3] % 128))
                  ELSE FromBytesLE(SubSeq(b, 1, 6) \o <<b[7] % 16>>)
IsNeg(f, b) == b[Len(b)] >= 128
P2(n) == Pow2(n)
Hidden(f) == Pow2(Prec(f) - 1)

Dec(f, b) ==
  LET ex == Exponent(f, b)
      fr == Fraction(f, b)
      ng == IsNeg(f, b)
  IN IF ex = ExpOnes(f) THEN [k |-> IF fr = Zero THEN "inf" ELSE "nan", neg |-> ng, m |-> Zero, e |-> 0]
     ELSE IF ex = 0 THEN [k |-> "fin", neg |-> ng, m |-> fr, e |-> EMin(f)]
     ELSE [k |-> "fin", neg |-> ng, m |-> Add(fr, Hidden(f)), e |-> EMin(f) + ex - 1]
IsNan(x) == x.k = "nan"
IsInf(x) == x.k = "inf"
IsFin(x) == x.k = "fin"
IsZero(x) == x.k = "fin" /\ x.m = Zero

(* m * 2^e as a fraction                                                     *)
Num(m, e) == IF e > 0 THEN Mul(m, Pow2(e)) ELSE m
Den(e) == IF e < 0 THEN Pow2(-e) ELSE One
Mag(x) == [n |-> Num(x.m, x.e), d |-> Den(x.e)]
Rat(x) == [n |-> IF x.neg THEN Neg(Num(x.m, x.e)) ELSE Num(x.m, x.e), d |-> Den(x.e)]

(* -1, 0, 1: n/d against m * 2^e (d > 0)                                     *)
CmpDyadic(n, d, m, e) == IF e >= 0 THEN Cmp(n, Mul(d, Num(m, e))) ELSE Cmp(Mul(n, Pow2(-e)), Mul(m, d))

IsEven(m) == m = Zero \/ m.m[1] % 2 = 0
(* the interval of values that round to the non-negative number x            *)
UpperHalf(x) == [m |-> Add(MulI(x.m, 2), One), e |-> x.e - 1]
LowerHalf(f, x) == IF x.m = Hidden(f) /\ x.e > EMin(f) THEN [m |-> Sub(MulI(x.m, 4), One), e |-> x.e - 2]
                   ELSE [m |-> Sub(MulI(x.m, 2), One), e |-> x.e - 1]
TooBig(f) == [m |-> Sub(Pow2(Prec(f) + 1), One), e |-> EMax(f) - 1]

(* x (sign ignored) is n/d >= 0 rounded to nearest, ties to even              *)
Nearest(f, x, n, d) ==
  IF IsNan(x) THEN FALSE
  ELSE IF IsInf(x) THEN CmpDyadic(n, d, TooBig(f).m, TooBig(f).e) >= 0
  ELSE LET u == UpperHalf(x)
           cu == CmpDyadic(n, d, u.m, u.e)
       IN /\ cu < 0 \/ (cu = 0 /\ IsEven(x.m))
          /\ x.m = Zero \/ LET w == LowerHalf(f, x)
                               cl == CmpDyadic(n, d, w.m, w.e)
                           IN cl > 0 \/ (cl = 0 /\ IsEven(x.m))

(* comparison of decoded finite or infinite numbers                          *)
SignOf(x) == IF IsZero(x) THEN 0 ELSE IF x.neg THEN -1 ELSE 1
MagCmp(x, y) == IF IsInf(x) \/ IsInf(y) THEN (IF IsInf(x) THEN (IF IsInf(y) THEN 0 ELSE 1) ELSE -1)
                ELSE LET e == MinOf(x.e, y.e) IN Cmp(Num(x.m, x.e - e), Num(y.m, y.e - e))
FCmp(x, y) == LET a == SignOf(x)
                  b == SignOf(y)
              IN IF a # b THEN (IF a < b THEN -1 ELSE 1) ELSE IF a = 0 THEN 0 ELSE a * MagCmp(x, y)
=============================================================================
