----------------------------- MODULE TraceReal -----------------------------
(* Recorded calls of the real functions: r.op the function, r.f the format   *)
(* of its arguments and result, r.x (and r.y) the arguments as memory, r.r   *)
(* the result. r.m, when present, is the result for the negated argument.    *)
(* EXPT: r.x the base, r.e the exponent: r.ek its kind ("D" integer r.n, or  *)
(* the format of r.y); r.c the exponent converted to the base's format and   *)
(* r.m the result of the base's own variant for it.                          *)
EXTENDS Powers, Json, IOUtils

K == Big(4)
(* next to a zero or a pole away from 0 the argument reduction of the platform's library is itself some units off *)
KTrig(y, x) == IF AbsCmpOne(x) > 0 /\ (CmpDyadic(Pow2(30), One, y.m, y.e) < 0 \/ CmpDyadic(One, Pow2(40), y.m, y.e) > 0) THEN Big(64) ELSE K

Zeros(y, ng) == IsZero(y) /\ y.neg = ng
Infs(y, ng) == IsInf(y) /\ y.neg = ng
Exact1(y) == IsOne(y)
PowerOfTen(x) ==        \* x = 10^n for some n in 0..22 ; n or -1
  IF x.neg \/ x.e > 20 \/ x.e < -60 THEN -1
  ELSE LET S == {n \in 0..22 : CmpDyadic(Pow10(n), One, x.m, x.e) = 0} IN IF S = {} THEN -1 ELSE CHOOSE n \in S : TRUE

LnLog(r, x, y, ten) ==
  IF IsNan(x) \/ (x.neg /\ ~IsZero(x)) THEN Want(IsNan(y), "no number is required")
  ELSE IF IsZero(x) THEN Want(Infs(y, TRUE), "the logarithm of 0 is minus infinity")
  ELSE IF IsInf(x) THEN Want(Infs(y, FALSE), "infinite")
  ELSE IF Exact1(x) THEN Want(Zeros(y, FALSE), "the logarithm of 1 is 0")
  ELSE IF ten /\ PowerOfTen(x) > 0 THEN Want(IsFin(y) /\ ~y.neg /\ CmpDyadic(Big(PowerOfTen(x)), One, y.m, y.e) = 0, "the logarithm of a power of ten is exact")
  ELSE Want(LogOk(y, K, x, ten), "not the logarithm")
Exponential(r, x, y) ==
  IF IsNan(x) THEN Want(IsNan(y), "no number is required")
  ELSE IF IsInf(x) THEN Want(IF x.neg THEN Zeros(y, FALSE) ELSE Infs(y, FALSE), "wrong limit")
  ELSE IF IsZero(x) THEN Want(Exact1(y), "the exponential of 0 is 1")
  ELSE IF IsNan(y) THEN "no number" ELSE Want(ExpOk(r.f, y, K, x), "not the exponential")
Trigonometric(r, x, y) ==
  IF IsNan(x) \/ IsInf(x) THEN Want(IsNan(y), "no number is required")
  ELSE IF IsZero(x) THEN Want(IF r.op = "COS" THEN Exact1(y) ELSE Zeros(y, x.neg), "wrong at 0")
  ELSE IF ~IsFin(y) THEN "no finite number"
  ELSE Want(CASE r.op = "SIN" -> SinOk(y, KTrig(y, x), x) [] r.op = "COS" -> CosOk(y, KTrig(y, x), x) [] r.op = "TAN" -> TanOk(y, KTrig(y, x), x), "not the value")
Arc(r, x, y) ==
  IF IsNan(x) \/ ((IsInf(x) \/ AbsCmpOne(x) > 0) /\ r.op # "ATAN") THEN Want(IsNan(y), "no number is required")
  ELSE IF r.op = "ATAN" /\ IsInf(x) THEN Want(IsFin(y) /\ y.neg = x.neg /\ Near([y EXCEPT !.neg = FALSE], K, PiHalf), "not half of pi")
  ELSE IF ~IsFin(y) THEN "no finite number"
  ELSE IF r.op = "ACOS" THEN (IF ~x.neg /\ AbsCmpOne(x) = 0 THEN Want(Zeros(y, FALSE), "the arc cosine of 1 is 0") ELSE Want(AcosOk(y, K, x), "not the value"))
  ELSE IF y.neg # x.neg THEN "wrong sign"
  ELSE IF IsZero(x) THEN Want(IsZero(y), "wrong at 0")
  ELSE IF r.op = "ASIN" THEN Want(AsinOk(y, K, x), "not the value")
  ELSE Want(DirOk(y, K, Number(FALSE, One, 0), x), "not the value")
(* ATAN2(y, x): in1 is y, in2 is x                                            *)
Direction(a, b) ==   \* the finite point in the direction of (a, b)
  IF ~IsInf(a) /\ ~IsInf(b) THEN [a |-> a, b |-> b]
  ELSE [a |-> Number(a.neg, IF IsInf(a) THEN One ELSE Zero, 0), b |-> Number(b.neg, IF IsInf(b) THEN One ELSE Zero, 0)]
ArcTwo(r, b0, a0, y) ==
  IF IsNan(a0) \/ IsNan(b0) THEN Want(IsNan(y), "no number is required")
  ELSE IF ~IsFin(y) THEN "no finite number"
  ELSE LET p == Direction(a0, b0) IN
       IF y.neg # p.b.neg THEN "wrong sign"
       ELSE IF IsZero(p.b) THEN (IF p.a.neg THEN Want(Near([y EXCEPT !.neg = FALSE], K, PiWhole), "not pi") ELSE Want(IsZero(y), "not 0"))
       ELSE Want(DirOk(y, K, p.a, p.b), "not the angle")
Root(r, x, y) ==
  IF IsNan(x) \/ (x.neg /\ ~IsZero(x)) THEN Want(IsNan(y), "no number is required")
  ELSE IF IsZero(x) THEN Want(Zeros(y, x.neg), "the root of 0 is 0")
  ELSE IF IsInf(x) THEN Want(Infs(y, FALSE), "infinite")
  ELSE Want(~y.neg /\ RootOk(r.f, y, x), "not the nearest to the square root")
Rounded(x, y) ==
  IF IsNan(x) THEN Want(IsNan(y), "no number is required")
  ELSE IF IsInf(x) THEN Want(Infs(y, x.neg), "infinite")
  ELSE Want(RoundOk(y, x), "not the nearest integer")

(* oddness and evenness                                                       *)
Mirror(r, y) ==
  IF ~("m" \in DOMAIN r) \/ IsNan(y) THEN "ok"
  ELSE LET z == Dec(r.f, r.m) IN
       IF r.op = "COS" THEN Want(z = y, "not even") ELSE Want(z = [y EXCEPT !.neg = ~y.neg], "not odd")
(* w, or for the negation of a judged argument only the mirror relation       *)
Both(r, x, y, w) == LET v == Mirror(r, y) IN
                    IF v # "ok" \/ (x.neg /\ IsFin(x) /\ ~IsNan(y) /\ "m" \in DOMAIN r) THEN v ELSE w

(* --- powers -------------------------------------------------------------------- *)
IntPower(r, x, y, n) == PowVerdict(r.f, y, MulI(Add(Abs(n), Big(4)), 2), x, "fin", [neg |-> n.s < 0, m |-> Abs(n), j |-> 0], TRUE)
(* the exponents the variants for wider integer types really use              *)
Wrapped(n) == LET m == Sub(n, Mul(FloorDivSmall(FloorDivSmall(n, 65536).q, 65536).q, Pow2(32))) IN IF Lt(m, Pow2(31)) THEN m ELSE Sub(m, Pow2(32))
Expt(r, x, y) ==
  IF r.ek = "D"
  THEN LET v == IntPower(r, x, y, r.n) IN
       IF v # "ok" /\ Wrapped(r.n) # r.n /\ IntPower(r, x, y, Wrapped(r.n)) = "ok" THEN "known:ExponentWrap" ELSE v
  ELSE LET q == Dec(r.ek, r.y)
           c == Dec(r.f, r.c)
       IN IF r.ek # r.f /\ ~(IF IsFin(q) THEN ~IsNan(c) /\ Nearest(r.f, c, Mag(q).n, Mag(q).d) /\ c.neg = q.neg ELSE c.k = q.k /\ c.neg = q.neg)
          THEN "the harness converted the exponent wrongly"
          ELSE IF r.ek # r.f THEN LET z == Dec(r.f, r.m) IN Want(IF IsNan(z) THEN IsNan(y) ELSE y = z, "differs from the base type's own variant")
          ELSE PowVerdict(r.f, y, K, x, c.k, IF IsFin(c) THEN ExponentOf(c) ELSE [neg |-> c.neg, m |-> Zero, j |-> 0], FALSE)

Const(r) ==     \* an exported constant: the nearest to its value
  LET v == CASE r.name = "PI" -> [n |-> PiDigits, d |-> Unit(100)]
             [] r.name = "FRAC_PI_2" -> [n |-> PiDigits, d |-> MulI(Unit(100), 2)]
             [] r.name = "FRAC_PI_4" -> [n |-> PiDigits, d |-> MulI(Unit(100), 4)]
             [] r.name = "E" -> ExpAt(One, 0)
      y == Dec(r.f, r.r)
  IN Want(~y.neg /\ Nearest(r.f, y, v.n, v.d), "not the nearest to the constant")

RealVerdict(r) ==
  IF r.out = "nosym" THEN "not exported"
  ELSE IF r.out # "ok" THEN "the call failed: " \o r.out
  ELSE IF r.op = "const" THEN Const(r)
  ELSE LET y == Dec(r.f, r.r)
           x == Dec(r.f, r.x)
       IN CASE r.op = "LN" -> LnLog(r, x, y, FALSE)
            [] r.op = "LOG" -> LnLog(r, x, y, TRUE)
            [] r.op = "EXP" -> Exponential(r, x, y)
            [] r.op \in {"SIN", "COS", "TAN"} -> Both(r, x, y, Trigonometric(r, x, y))
            [] r.op \in {"ASIN", "ATAN"} -> Both(r, x, y, Arc(r, x, y))
            [] r.op = "ACOS" -> Arc(r, x, y)
            [] r.op = "ATAN2" -> Both(r, x, y, ArcTwo(r, x, Dec(r.f, r.y), y))
            [] r.op = "SQRT" -> Root(r, x, y)
            [] r.op = "ROUND" -> Both(r, x, y, Rounded(x, y))
            [] r.op = "EXPT" -> Expt(r, x, y)
Sg(x) == IF x.neg THEN "-" ELSE "+"
RealClass(r) ==
  IF r.op = "const" THEN r.sym
  ELSE LET x == Dec(r.f, r.x) IN
       r.sym \o "." \o x.k \o Sg(x) \o "." \o (IF r.out = "ok" THEN LET y == Dec(r.f, r.r) IN y.k \o Sg(y) ELSE r.out)

VARIABLES l, bad, cov
INSTANCE Judge WITH Verdict <- RealVerdict, Class <- RealClass
=============================================================================
