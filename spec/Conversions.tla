---------------------------- MODULE Conversions ----------------------------
(* Conversions between the elementary types, X_TO_Y, as the language names   *)
(* them. Bit strings, characters and unsigned integers hold 0..2^w-1, signed *)
(* integers and the times and dates (counts of nanoseconds) -2^(w-1)..       *)
(* 2^(w-1)-1, BOOL 0 or 1.                                                   *)
EXTENDS Float

T(w, s) == [w |-> w, s |-> s]
IntType == [BYTE |-> T(1, FALSE), WORD |-> T(2, FALSE), DWORD |-> T(4, FALSE), LWORD |-> T(8, FALSE),
            USINT |-> T(1, FALSE), UINT |-> T(2, FALSE), UDINT |-> T(4, FALSE), ULINT |-> T(8, FALSE),
            SINT |-> T(1, TRUE), INT |-> T(2, TRUE), DINT |-> T(4, TRUE), LINT |-> T(8, TRUE), CHAR |-> T(1, FALSE), WCHAR |-> T(2, FALSE),
            TIME |-> T(8, TRUE), LTIME |-> T(8, TRUE), DATE |-> T(8, TRUE), LDATE |-> T(8, TRUE), DT |-> T(8, TRUE), LDT |-> T(8, TRUE),
            TOD |-> T(8, TRUE), LTOD |-> T(8, TRUE)]
RealType == [REAL |-> "R", LREAL |-> "L"]
BitStrings == {"BYTE", "WORD", "DWORD", "LWORD"}
IsIntType(ty) == ty \in DOMAIN IntType

(* the n low-order bytes of an integer in two's complement, least first      *)
RECURSIVE LowBytes(_, _)
LowBytes(v, n) == IF n = 0 THEN <<>> ELSE LET d == FloorDivSmall(v, 256) IN <<d.r>> \o LowBytes(d.q, n - 1)
ValueOf(ty, b) == LET u == FromBytesLE(b) IN IF IntType[ty].s /\ b[Len(b)] >= 128 THEN Sub(u, Pow2(8 * Len(b))) ELSE u
Least(ty) == IF IntType[ty].s THEN Neg(Pow2(8 * IntType[ty].w - 1)) ELSE Zero
Greatest(ty) == Sub(Pow2(8 * IntType[ty].w - (IF IntType[ty].s THEN 1 ELSE 0)), One)
Fits(ty, v) == Within(v, Least(ty), Greatest(ty))
(* integers to integers: the value if it fits, otherwise its low-order bits  *)
ToInteger(ty, v) == IF Fits(ty, v) THEN v ELSE ValueOf(ty, LowBytes(v, IntType[ty].w))
(* to BOOL: the lowest bit of a bit string; of a number, whether it is not 0 *)
ToBool(from, v) == IF from \in BitStrings THEN LowBytes(v, 1)[1] % 2 ELSE IF v = Zero THEN 0 ELSE 1

(* the integer v is the real x rounded half away from zero: |v - x| <= 1/2,  *)
(* and |v| > |x| when the distance is one half                               *)
IsRounded(v, x) ==
  LET q == Rat(x)
      d == Sub(MulI(Mul(v, q.d), 2), MulI(q.n, 2))        \* 2 (v - x), times the denominator
      c == Cmp(Abs(d), q.d)
  IN c < 0 \/ (c = 0 /\ Lt(Abs(q.n), Abs(Mul(v, q.d))))
IsTruncated(v, x) == LET q == Rat(x) IN Leq(Abs(Mul(v, q.d)), Abs(q.n)) /\ Lt(Sub(Abs(q.n), Abs(Mul(v, q.d))), q.d) /\ (v = Zero \/ v.s = q.n.s)
(* x certainly rounds (truncates) into the type: the outcome of anything     *)
(* else is not defined by the language                                       *)
InRange(ty, x) == LET q == Rat(x) IN Lt(Mul(Sub(MulI(Least(ty), 2), One), q.d), MulI(q.n, 2)) /\ Lt(MulI(q.n, 2), Mul(Add(MulI(Greatest(ty), 2), One), q.d))
InTrunc(ty, x) == LET q == Rat(x) IN Leq(Mul(Least(ty), q.d), q.n) /\ Leq(q.n, Mul(Greatest(ty), q.d))
SameReal(x, y) == x = y \/ (IsNan(x) /\ IsNan(y))
=============================================================================
