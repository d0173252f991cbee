------------------------------ MODULE RealMath ------------------------------
(* The real functions, decided in exact arithmetic. Nothing is computed in   *)
(* floating point: a result y is accepted when the exact value lies between  *)
(* y minus and y plus a few units in its last place. EXP, SIN, COS and TAN   *)
(* are bracketed through their series; the inverse functions by applying the *)
(* direct function to the ends of the bracket; powers by integer powers.     *)
(* A bracket end is a dyadic number M * 2^e, M a signed BigInt.              *)
EXTENDS Float, Constants

(* --- fixed point: 10000^F units; truncated ----------------------------------- *)
F == 12
DropL(a, n) == IF n <= 0 THEN a ELSE IF Len(a.m) <= n THEN Zero ELSE Mk(a.s, SubSeq(a.m, n + 1, Len(a.m)))
LowL(a, n) == Mk(a.s, Trim(SubSeq(a.m, 1, MinOf(n, Len(a.m)))))
ScaleL(a, n) == Mk(a.s, ShiftLimbs(a.m, n))
Unit(n) == ScaleL(One, n)
FMul(a, b) == DropL(Mul(a, b), F)
DivI(a, k) == Mk(a.s, MDivSmall(a.m, k).q)
RECURSIVE DivPow2(_, _)
DivPow2(a, j) == IF j = 0 \/ a = Zero THEN a
                 ELSE IF j >= 17 THEN DivPow2(DivI(a, 131072), j - 17) ELSE DivI(a, 2^j)
FixOf(M, e, n) == IF e >= 0 THEN ScaleL(Num(M, e), n) ELSE DivPow2(ScaleL(M, n), -e)

Ln2F == DropL(Ln2Digits, 20 - F)
InvLn2F == DropL(InvLn2Digits, 20 - F)
Ln10F == DropL(Ln10Digits, 20 - F)

(* --- exponential --------------------------------------------------------------- *)
RECURSIVE ExpSum(_, _, _, _)
ExpSum(r, term, k, acc) == IF term = Zero THEN acc
                           ELSE LET t == DivI(FMul(term, r), k) IN ExpSum(r, t, k + 1, Add(acc, t))
ExpSeries(r) == ExpSum(r, Unit(F), 1, Unit(F))
(* e^x for x in fixed point with |x| < 4000, as a fraction                     *)
ExpFix(x) == LET k == ToInt(DropL(FMul(x, InvLn2F), F))
                 v == ExpSeries(Sub(x, MulI(Ln2F, k)))
             IN [n |-> Num(v, k), d |-> Mul(Unit(F), Den(k))]
Far(M, e) == CmpDyadic(Big(3000), One, Abs(M), e) < 0
ExpAt(M, e) == ExpFix(FixOf(M, e, F))
Exp10At(M, e) == ExpFix(FMul(FixOf(M, e, F), Ln10F))

(* --- sine and cosine ------------------------------------------------------------- *)
RECURSIVE TrigSum(_, _, _, _)
TrigSum(u, term, k, acc) == IF term = Zero THEN acc
                            ELSE LET t == Neg(DivI(FMul(term, u), k * (k + 1))) IN TrigSum(u, t, k + 2, Add(acc, t))
R == 20      \* limbs after the point of the reduced angle
PiHalfR == DivI(DropL(PiDigits, 100 - R), 2)
(* numerators of sine and cosine over TrigDen                                *)
TrigDen == Unit(R + F)
Trig(M, e) ==
  IF M = Zero \/ e < -140 THEN [s |-> IF M = Zero THEN Zero ELSE M, c |-> TrigDen, tiny |-> TRUE]
  ELSE LET g == IF e <= 4 THEN R ELSE 100
           t == IF g = 100 THEN TwoOverPiDigits ELSE DropL(TwoOverPiDigits, 100 - g)
           p == IF e >= 0 THEN Mul(Num(Abs(M), e), t) ELSE DivPow2(Mul(Abs(M), t), -e)
           fr == LowL(p, g)
           up == Cmp(MulI(fr, 2), Unit(g)) >= 0
           q == IF up THEN Add(DropL(p, g), One) ELSE DropL(p, g)
           f == DropL(IF up THEN Sub(fr, Unit(g)) ELSE fr, g - R)
           r == DropL(Mul(f, PiHalfR), R)
           u == DropL(Mul(r, r), 2 * R - F)
           s == Mul(r, TrigSum(u, Unit(F), 2, Unit(F)))
           c == ScaleL(TrigSum(u, Unit(F), 1, Unit(F)), R)
           k == FloorDivSmall(q, 4).r
           sn == CASE k = 0 -> s [] k = 1 -> c [] k = 2 -> Neg(s) [] k = 3 -> Neg(c)
           cs == CASE k = 0 -> c [] k = 1 -> Neg(s) [] k = 2 -> Neg(c) [] k = 3 -> s
       IN [s |-> IF M.s < 0 THEN Neg(sn) ELSE sn, c |-> cs, tiny |-> FALSE]
(* sin of M*2^e as a fraction: for a tiny angle the angle itself             *)
SinOf(t, M, e) == IF t.tiny THEN [n |-> Num(M, e), d |-> Den(e)] ELSE [n |-> t.s, d |-> TrigDen]
CosOf(t) == [n |-> t.c, d |-> TrigDen]

(* --- brackets --------------------------------------------------------------------- *)
Signed(x) == IF x.neg THEN Neg(x.m) ELSE x.m
LoM(y, k) == Sub(Signed(y), k)
HiM(y, k) == Add(Signed(y), k)
(* the fraction q lies within k units of the finite number y                 *)
Near(y, k, q) == CmpDyadic(q.n, q.d, LoM(y, k), y.e) >= 0 /\ CmpDyadic(q.n, q.d, HiM(y, k), y.e) <= 0
(* q is so large that infinity is a permissible result                       *)
Overflows(f, k, q) == CmpDyadic(q.n, q.d, Sub(Sub(Pow2(Prec(f)), One), k), EMax(f)) > 0
(* fraction against finite number                                            *)
Against(q, x) == CmpDyadic(q.n, q.d, Signed(x), x.e)
Within2(y, lim) == CmpDyadic(lim, One, y.m, y.e) >= 0
PiHalf == [n |-> PiHalfR, d |-> Unit(R)]
PiWhole == [n |-> MulI(PiHalfR, 2), d |-> Unit(R)]

ExpOk(f, y, k, x) ==
  IF CmpDyadic(Big(800), One, Signed(x), x.e) < 0 THEN IsInf(y) /\ ~y.neg
  ELSE IF CmpDyadic(Big(-800), One, Signed(x), x.e) > 0 THEN IsFin(y) /\ ~y.neg /\ Leq(y.m, k) /\ y.e = EMin(f)
  ELSE LET v == ExpAt(Signed(x), x.e) IN
       ~y.neg /\ IF IsInf(y) THEN Overflows(f, k, v) ELSE Near(y, k, v)
(* logarithm y of x > 0: the exponentials of the bracket's ends enclose x      *)
LogOk(y, k, x, ten) ==
  /\ IsFin(y) /\ ~Far(y.m, y.e)
  /\ LET ex(M) == IF ten THEN Exp10At(M, y.e) ELSE ExpAt(M, y.e) IN
     Against(ex(LoM(y, k)), x) <= 0 /\ Against(ex(HiM(y, k)), x) >= 0
SinOk(y, k, x) == LET t == Trig(Signed(x), x.e) IN Near(y, k, SinOf(t, Signed(x), x.e))
CosOk(y, k, x) == Near(y, k, CosOf(Trig(Signed(x), x.e)))
Flip(q) == IF q.d.s < 0 THEN [n |-> Neg(q.n), d |-> Neg(q.d)] ELSE q
TanOk(y, k, x) == LET t == Trig(Signed(x), x.e)
                      s == SinOf(t, Signed(x), x.e)
                  IN Near(y, k, Flip([n |-> IF t.tiny THEN s.n ELSE t.s, d |-> IF t.tiny THEN s.d ELSE t.c]))
(* the arc functions: y in the principal range up to its bracket, and the    *)
(* function at the bracket's ends (clipped to the range) encloses x          *)
AsinOk(y, k, x) ==
  /\ Within2(y, Big(2))
  /\ LET lo == LoM(y, k)
         hi == HiM(y, k)
     IN /\ CmpDyadic(Neg(PiHalf.n), PiHalf.d, lo, y.e) > 0 \/ Against(SinOf(Trig(lo, y.e), lo, y.e), x) <= 0
        /\ CmpDyadic(PiHalf.n, PiHalf.d, hi, y.e) < 0 \/ Against(SinOf(Trig(hi, y.e), hi, y.e), x) >= 0
        /\ CmpDyadic(PiHalf.n, PiHalf.d, lo, y.e) >= 0 /\ CmpDyadic(Neg(PiHalf.n), PiHalf.d, hi, y.e) <= 0
AcosOk(y, k, x) ==
  /\ Within2(y, Big(4)) /\ ~y.neg
  /\ LET lo == LoM(y, k)
         hi == HiM(y, k)
     IN /\ lo.s <= 0 \/ Against(CosOf(Trig(lo, y.e)), x) >= 0
        /\ CmpDyadic(PiWhole.n, PiWhole.d, hi, y.e) < 0 \/ Against(CosOf(Trig(hi, y.e)), x) <= 0
        /\ CmpDyadic(PiWhole.n, PiWhole.d, lo, y.e) >= 0
(* sign of cos(M 2^e) * b - sin(M 2^e) * a for numbers a, b (finite): which    *)
(* side of the direction M 2^e the point (a, b) lies on                        *)
Side(M, e, a, b) ==
  LET t == Trig(M, e)
      s == SinOf(t, M, e)
      c == CosOf(t)
      z == MinOf(a.e, b.e)
      an == Num(Signed(a), a.e - z)
      bn == Num(Signed(b), b.e - z)
  IN Cmp(Mul(Mul(c.n, s.d), bn), Mul(Mul(s.n, c.d), an))
Ahead(M, e, a, b) ==       \* the point lies in the half plane of the direction
  LET t == Trig(M, e)
      s == SinOf(t, M, e)
      c == CosOf(t)
      z == MinOf(a.e, b.e)
  IN Add(Mul(Mul(c.n, s.d), Num(Signed(a), a.e - z)), Mul(Mul(s.n, c.d), Num(Signed(b), b.e - z))).s > 0
DirOk(y, k, a, b) == /\ Within2(y, Big(4))
                     /\ Ahead(Signed(y), y.e, a, b)
                     /\ Side(LoM(y, k), y.e, a, b) >= 0 /\ Side(HiM(y, k), y.e, a, b) <= 0

(* --- square root and rounding ---------------------------------------------------- *)
Sq(h) == [m |-> Mul(h.m, h.m), e |-> 2 * h.e]
RootOk(f, y, x) ==      \* y > 0 is the nearest to the square root of x > 0
  LET v == Mag(x)
      u == Sq(UpperHalf(y))
      w == Sq(LowerHalf(f, y))
  IN IsFin(y) /\ ~IsZero(y) /\ CmpDyadic(v.n, v.d, u.m, u.e) < 0 /\ CmpDyadic(v.n, v.d, w.m, w.e) > 0
RECURSIVE Divisible(_, _)
Divisible(m, j) == IF j <= 0 \/ m = Zero THEN TRUE
                   ELSE LET k == MinOf(j, 17)
                            d == MDivSmall(m.m, 2^k)
                        IN d.r = 0 /\ Divisible(Mk(1, d.q), j - k)
Whole(x) == Divisible(x.m, -x.e)
RoundOk(y, x) ==
  /\ IsFin(y) /\ Whole(y)
  /\ IF Whole(x) THEN y = x \/ (Mag(y).n = Zero /\ IsZero(x) /\ y.neg = x.neg) \/ (~IsZero(x) /\ FCmp(x, y) = 0)
     ELSE LET a == Mag(x)
              b == Mag(y)
              diff == Sub(Mul(b.n, a.d), Mul(a.n, b.d))     \* (|y| - |x|) * dx * dy
              half == Mul(a.d, b.d)
              c == Cmp(MulI(Abs(diff), 2), half)
          IN (c < 0 \/ (c = 0 /\ diff.s > 0)) /\ (IsZero(y) \/ y.neg = x.neg)
=============================================================================
