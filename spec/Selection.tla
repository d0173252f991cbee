----------------------------- MODULE Selection -----------------------------
(* MAX, MIN and LIMIT over the elementary types. A value of a type is        *)
(* [f |-> format or "", v |-> BigInt or decoded float]; not-a-number is      *)
(* neither less nor greater than anything.                                   *)
EXTENDS Float

Elem == [BOOL |-> [w |-> 1, k |-> "u"], BYTE |-> [w |-> 1, k |-> "u"], CHAR |-> [w |-> 1, k |-> "u"], WORD |-> [w |-> 2, k |-> "u"],
         WCHAR |-> [w |-> 2, k |-> "u"], DWORD |-> [w |-> 4, k |-> "u"], LWORD |-> [w |-> 8, k |-> "u"],
         SINT |-> [w |-> 1, k |-> "s"], INT |-> [w |-> 2, k |-> "s"], DINT |-> [w |-> 4, k |-> "s"], LINT |-> [w |-> 8, k |-> "s"],
         USINT |-> [w |-> 1, k |-> "u"], UINT |-> [w |-> 2, k |-> "u"], UDINT |-> [w |-> 4, k |-> "u"], ULINT |-> [w |-> 8, k |-> "u"],
         DATE |-> [w |-> 8, k |-> "s"], DATE_AND_TIME |-> [w |-> 8, k |-> "s"], TIME |-> [w |-> 8, k |-> "s"], TIME_OF_DAY |-> [w |-> 8, k |-> "s"],
         REAL |-> [w |-> 4, k |-> "R"], LREAL |-> [w |-> 8, k |-> "L"]]

(* the value w bytes (least significant first) denote in type ty             *)
Value(ty, b) ==
  LET k == Elem[ty].k IN
  IF k \in {"R", "L"} THEN [f |-> k, v |-> Dec(k, b)]
  ELSE LET u == FromBytesLE(b) IN
       [f |-> "", v |-> IF k = "s" /\ b[Len(b)] >= 128 THEN Sub(u, Pow2(8 * Len(b))) ELSE u]
NoNumber(x) == x.f # "" /\ IsNan(x.v)
Less(x, y) == IF x.f = "" THEN Lt(x.v, y.v) ELSE ~IsNan(x.v) /\ ~IsNan(y.v) /\ FCmp(x.v, y.v) < 0

(* x may be the result of MAX (MIN) of the non-empty sequence xs             *)
IsMax(x, xs) == (\E i \in DOMAIN xs : xs[i] = x) /\ \A i \in DOMAIN xs : ~Less(x, xs[i])
IsMin(x, xs) == (\E i \in DOMAIN xs : xs[i] = x) /\ \A i \in DOMAIN xs : ~Less(xs[i], x)
Clamp(lo, x, hi) == IF Less(x, lo) THEN lo ELSE IF Less(hi, x) THEN hi ELSE x
=============================================================================
