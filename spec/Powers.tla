------------------------------- MODULE Powers -------------------------------
(* Powers of any size: decimal floating numbers m * 10000^e with 16 limbs of *)
(* mantissa (64 digits) and exponents of any size. Whether y is x^(n/2^j) is *)
(* decided by comparing integer powers, y^(2^j) with x^n.                    *)
EXTENDS RealMath

PL == 16
PNorm(m, e) == IF Len(m.m) > PL THEN [m |-> DropL(m, Len(m.m) - PL), e |-> Add(e, Big(Len(m.m) - PL))] ELSE [m |-> m, e |-> e]
POne == [m |-> One, e |-> Zero]
PMul(a, b) == PNorm(Mul(a.m, b.m), Add(a.e, b.e))
RECURSIVE PPow(_, _)
PPow(a, n) == IF n = Zero THEN POne
              ELSE IF n = One THEN a
              ELSE LET h == FloorDivSmall(n, 2)
                       p == PPow(a, h.q)
                       s == PMul(p, p)
                   IN IF h.r = 1 THEN PMul(s, a) ELSE s
RECURSIVE PSquares(_, _)
PSquares(a, j) == IF j = 0 THEN a ELSE PSquares(PMul(a, a), j - 1)
PSize(a) == Add(Big(Len(a.m.m)), a.e)
PCmp(a, b) == IF a.m = Zero \/ b.m = Zero THEN Cmp(a.m, b.m)
              ELSE LET c == Cmp(PSize(a), PSize(b))
                       n == MaxOf(Len(a.m.m), Len(b.m.m))
                   IN IF c # 0 THEN c ELSE Cmp(ScaleL(a.m, n - Len(a.m.m)), ScaleL(b.m, n - Len(b.m.m)))
(* M * 2^e, M >= 0                                                             *)
PDyadic(M, e) == IF e >= 0 THEN PMul(PNorm(M, Zero), PPow([m |-> Big(2), e |-> Zero], Big(e)))
                 ELSE LET j == -e
                          pad == (4 - (j % 4)) % 4
                      IN PMul(PNorm(MulI(M, 10^pad), Big(-((j + pad) \div 4))), PPow([m |-> Big(5), e |-> Zero], Big(j)))

RECURSIVE Odd(_, _)
Odd(m, j) == IF j > 0 /\ m.m[1] % 2 = 0 THEN Odd(DivI(m, 2), j - 1) ELSE [m |-> m, j |-> j]
(* an exponent: sign, numerator, power of two of the denominator              *)
ExponentOf(q) == IF q.m = Zero THEN [neg |-> q.neg, m |-> Zero, j |-> 0]
                 ELSE IF q.e >= 0 THEN [neg |-> q.neg, m |-> Num(q.m, q.e), j |-> 0]
                 ELSE LET o == Odd(q.m, -q.e) IN [neg |-> q.neg, m |-> o.m, j |-> o.j]
Integral(q) == q.j = 0
OddInt(q) == q.j = 0 /\ q.m # Zero /\ q.m.m[1] % 2 = 1

(* |y| is |x|^q up to k units (k BigInt), x and y finite and not zero apart from y; *)
(* flush: a reciprocal result below the smallest normal number may be 0       *)
PowerOk(f, y, k, x, q, flush) ==
  LET t == PPow(PDyadic(x.m, x.e), q.m)
      side(M, e) == LET p == PSquares(PDyadic(M, e), q.j) IN IF q.neg THEN PCmp(PMul(p, t), POne) ELSE PCmp(p, t)
  IN IF IsInf(y) THEN LET M == Sub(Sub(Pow2(Prec(f)), One), k) IN M.s <= 0 \/ side(M, EMax(f)) < 0
     ELSE /\ LET lo == Sub(y.m, k) IN lo.s <= 0 \/ side(lo, y.e) <= 0
          /\ side(IF flush /\ q.neg /\ y.e = EMin(f) /\ Lt(y.m, Hidden(f)) THEN BMax(Hidden(f), Add(y.m, k)) ELSE Add(y.m, k), y.e) >= 0

Number(ng, m, e) == [k |-> "fin", neg |-> ng, m |-> m, e |-> e]
AbsCmpOne(x) == IF IsInf(x) THEN 1 ELSE IF IsZero(x) THEN -1 ELSE CmpDyadic(Mag(x).n, Mag(x).d, One, 0)
IsOne(y) == IsFin(y) /\ ~y.neg /\ AbsCmpOne(y) = 0
(* the required outcome of x^q; q an exponent or "inf"; "ok" or the fault     *)
Want(b, why) == IF b THEN "ok" ELSE why
ZeroOf(y, ng) == IsZero(y) /\ y.neg = ng
InfOf(y, ng) == IsInf(y) /\ y.neg = ng
(* qk: "nan", "inf" or "fin"                                                  *)
PowVerdict(f, y, k, x, qk, q, flush) ==
  IF qk = "fin" /\ q.m = Zero THEN Want(IsOne(y), "anything to the power of 0 is 1")
  ELSE IF IsFin(x) /\ ~x.neg /\ AbsCmpOne(x) = 0 THEN Want(IsOne(y), "any power of 1 is 1")
  ELSE IF IsNan(x) \/ qk = "nan" THEN Want(IsNan(y), "a power of no number is no number")
  ELSE IF qk = "inf" \/ (qk = "fin" /\ IsFin(x) /\ ~IsZero(x) /\ ~Lt(q.m, P64))
       THEN LET c == AbsCmpOne(x) IN
            IF c = 0 THEN Want(IsOne(y), "an even power of -1 is 1")
            ELSE IF (c > 0) = ~q.neg THEN Want(InfOf(y, FALSE), "the power is infinite") ELSE Want(ZeroOf(y, FALSE), "the power is zero")
  ELSE IF IsZero(x) \/ IsInf(x)
       THEN LET ng == x.neg /\ OddInt(q) IN
            IF IsZero(x) = q.neg THEN Want(InfOf(y, ng), "the power is infinite") ELSE Want(ZeroOf(y, ng), "the power is zero")
  ELSE IF x.neg /\ ~Integral(q) THEN Want(IsNan(y), "no real power")
  ELSE IF IsNan(y) THEN "no number"
  ELSE IF y.neg # (x.neg /\ OddInt(q)) THEN "wrong sign"
  ELSE IF q.j > 123 THEN Want(IsFin(y) /\ Near(y, k, [n |-> One, d |-> One]), "not the power")
  ELSE Want(PowerOk(f, y, k, x, q, flush), "not the power")
=============================================================================
