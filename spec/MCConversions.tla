--------------------------- MODULE MCConversions ---------------------------
(* A value handed through chains of conversions: v of type ty now, orig of   *)
(* type from at the start, low the narrowest width it went through.          *)
EXTENDS Conversions, TLC
CONSTANT MaxSteps
VARIABLES from, orig, ty, v, low, fit, n

Kinds == {"BYTE", "WORD", "DWORD", "LWORD", "USINT", "UINT", "UDINT", "ULINT", "SINT", "INT", "DINT", "LINT", "TIME"}
Samples(t) == {x \in UNION {{Add(b, Big(d)) : d \in {-2, -1, 0, 1, 2}} : b \in {Zero, Pow2(7), Pow2(8), Pow2(15), Pow2(16), Pow2(31), Pow2(32), Pow2(63), Pow2(64),
               Neg(Pow2(7)), Neg(Pow2(8)), Neg(Pow2(15)), Neg(Pow2(31)), Neg(Pow2(63))}} : Fits(t, x)}
Init == /\ from \in Kinds /\ orig = Zero /\ ty = from /\ v = Zero /\ low = IntType[from].w /\ fit = TRUE /\ n = -1
Choose == n = -1 /\ n' = 0 /\ \E x \in Samples(from) : orig' = x /\ v' = x /\ UNCHANGED <<from, ty, low, fit>>
Convert == /\ n >= 0 /\ n < MaxSteps
           /\ \E t \in Kinds : /\ ty' = t
                               /\ v' = ToInteger(t, v)
                               /\ low' = IF IntType[t].w < low THEN IntType[t].w ELSE low
                               /\ fit' = (fit /\ Fits(t, orig))
           /\ n' = n + 1 /\ UNCHANGED <<from, orig>>
Spec == Init /\ [][Choose \/ Convert]_<<from, orig, ty, v, low, fit, n>>

InType == Fits(ty, v)
KeepsLowBits == LowBytes(v, low) = LowBytes(orig, low)
KeepsValue == fit => v = orig
(* to a type of the starting width and back is the identity                  *)
RoundTrip == low = IntType[from].w => ToInteger(from, v) = orig
BoolAgrees == \A t \in BitStrings : ToBool(t, v) = LowBytes(v, 1)[1] % 2 /\ (ToBool("LINT", v) = 0 <=> v = Zero)
=============================================================================
