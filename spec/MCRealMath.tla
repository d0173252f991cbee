----------------------------- MODULE MCRealMath -----------------------------
(* The constants against their defining series, and the functions against    *)
(* their identities, in fixed point with exact integer arithmetic.           *)
EXTENDS Powers
CONSTANT Grid     \* number of grid points per check

(* arctan(1/k) with n limbs                                                  *)
RECURSIVE ArcSum(_, _, _, _, _)
ArcSum(p, k2, i, sg, acc) == IF p = Zero THEN acc
                             ELSE LET t == DivI(p, i) IN ArcSum(DivI(p, k2), k2, i + 2, -sg, IF sg > 0 THEN Add(acc, t) ELSE Sub(acc, t))
ArcInv(k, n) == ArcSum(DivI(Unit(n), k), k * k, 1, 1, Zero)
Tiny(a, b, n) == Lt(Abs(Sub(a, b)), Unit(n))     \* they differ only in the last n limbs
(* 2 * artanh(1/k)                                                           *)
RECURSIVE HypSum(_, _, _, _)
HypSum(p, k2, i, acc) == IF p = Zero THEN acc ELSE HypSum(DivI(p, k2), k2, i + 2, Add(acc, DivI(p, i)))
Ln2Series(n) == MulI(HypSum(DivI(Unit(n), 3), 9, 1, Zero), 2)
Ln54Series(n) == MulI(HypSum(DivI(Unit(n), 9), 81, 1, Zero), 2)     \* ln(5/4)

Points == (-Grid)..Grid
VARIABLES it
Init == it = [f |-> "none"]
Next == it.f = "none" /\ it' \in {[f |-> "pi"], [f |-> "twopi"], [f |-> "ln"]} \cup {[f |-> "x", i |-> i] : i \in Points}
                                 \cup {[f |-> "big", i |-> i] : i \in 1..Grid} \cup {[f |-> "pow", i |-> i] : i \in 1..Grid}
Spec == Init /\ [][Next]_it

PiSeries == it.f = "pi" =>      \* Machin: pi = 16 arctan(1/5) - 4 arctan(1/239)
  Tiny(PiDigits, DropL(Sub(MulI(ArcInv(5, 102), 16), MulI(ArcInv(239, 102), 4)), 2), 1)
TwoOverPi == it.f = "twopi" => Tiny(DropL(Mul(PiDigits, TwoOverPiDigits), 100), MulI(Unit(100), 2), 2)
Logs == it.f = "ln" => /\ Tiny(Ln2Digits, DropL(Ln2Series(22), 2), 1)
                       /\ Tiny(Ln10Digits, DropL(Add(MulI(Ln2Series(22), 3), Ln54Series(22)), 2), 1)
                       /\ Tiny(DropL(Mul(Ln2Digits, InvLn2Digits), 20), Unit(20), 1)
(* fixed-point value of a fraction                                           *)
Fx(q) == DropL(ScaleL(q.n, F), Len(q.d.m) - 1)      \* for q.d a power of 10000
PointM(i) == Add(MulI(Pow2(40), i), MulI(Big(9973), i * i))       \* an angle i + a little, exponent -40
Identities == it.f = "x" =>
  LET M == PointM(it.i)
      t == Trig(M, -40)
      N == Add(M, MulI(Pow2(38), 3))
      t2 == Trig(N, -40)
      d == Trig(MulI(Pow2(38), 3), -40)           \* 3/4
      T(a) == DropL(a, R)                          \* to F limbs
      s == T(t.s)
      c == T(t.c)
  IN /\ Tiny(Add(FMul(s, s), FMul(c, c)), Unit(F), 1)
     /\ it.i # 0 => Tiny(T(t2.s), Add(FMul(s, T(d.c)), FMul(c, T(d.s))), 1)
     /\ it.i # 0 => Tiny(T(t2.c), Sub(FMul(c, T(d.c)), FMul(s, T(d.s))), 1)
     /\ LET a == ExpAt(M, -44)
            b == ExpAt(Neg(M), -44)
            p == Mul(a.n, b.n)
            q == Mul(a.d, b.d)
        IN Leq(Mul(Abs(Sub(p, q)), Unit(F - 2)), q)        \* e^x * e^-x = 1
     /\ LET a == ExpAt(M, -44)
            b == ExpAt(MulI(M, 2), -44)
            p == Mul(Mul(a.n, a.n), b.d)
            q == Mul(Mul(a.d, a.d), b.n)
        IN Leq(Mul(Abs(Sub(p, q)), Unit(F - 2)), q)        \* (e^x)^2 = e^2x
(* huge angles: reduction of x and of 2x agree through the double angle      *)
BigAngles == it.f = "big" =>
  LET M == PointM(it.i)
      e == 29 * it.i % 960
      t == Trig(M, e)
      t2 == Trig(M, e + 1)
      T(a) == DropL(a, R)
  IN /\ Tiny(Add(FMul(T(t.s), T(t.s)), FMul(T(t.c), T(t.c))), Unit(F), 1)
     /\ Tiny(T(t2.s), MulI(FMul(T(t.s), T(t.c)), 2), 1)
     /\ Tiny(T(t2.c), Sub(FMul(T(t.c), T(t.c)), FMul(T(t.s), T(t.s))), 1)
(* decimal floating powers against exact ones                                *)
Pows == it.f = "pow" =>
  LET i == it.i
      a == PDyadic(Big(2 * i + 1), -3)
      n == i % 40
      ex == PowB(Big(2 * i + 1), n)               \* (2i+1)^n / 2^(3n)
      r == PPow(a, Big(n))
      back == PMul(r, PDyadic(One, 3 * n))
      dif == Abs(Sub(IF back.e.s >= 0 THEN ScaleL(back.m, ToInt(back.e)) ELSE DropL(back.m, -ToInt(back.e)), ex))
  IN Leq(Mul(dif, Unit(13)), Add(ex, Unit(13)))
ASSUME PCmp(PPow([m |-> Big(3), e |-> Zero], Big(41)), PPow([m |-> Big(2), e |-> Zero], Big(65))) = -1
ASSUME PCmp(PPow([m |-> Big(3), e |-> Zero], Big(41)), PPow([m |-> Big(2), e |-> Zero], Big(64))) = 1
(* known values to 40 digits                                                 *)
ASSUME LET q == ExpAt(One, 0) IN     \* e = 2.718281828459045235360287471352662497757247...
       LET v == FromDec(<<2,7,1,8,2,8,1,8,2,8,4,5,9,0,4,5,2,3,5,3,6,0,2,8,7,4,7,1,3,5,2,6,6,2,4,9,7,7,5,7,2>>)
       IN Leq(Abs(Sub(Mul(q.n, Pow10(40)), Mul(v, q.d))), Mul(q.d, Big(10)))
ASSUME LET v == FromDec(<<8,4,1,4,7,0,9,8,4,8,0,7,8,9,6,5,0,6,6,5,2,5,0,2,3,2,1,6,3,0,2,9,8,9,9,9,6,2,2,5>>)     \* sin 1
       IN Leq(Abs(Sub(Mul(Trig(One, 0).s, Pow10(40)), Mul(v, TrigDen))), Mul(TrigDen, Big(10)))
=============================================================================
