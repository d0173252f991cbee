----------------------------- MODULE TraceBits -----------------------------
(* Recorded bit operations: r.a the argument as memory; r.n the shift amount *)
(* (BigInt) of a shift; r.f the format of a real ("" for bits), r.res the    *)
(* kind of the result: "int", "real" or "bool".                              *)
EXTENDS Bits, Json, IOUtils

(* whether the memory b is the result                                         *)
Unsigned(b, v) == v = FromBytesLE(b)
Signed(b, v) == v = LET u == FromBytesLE(b) IN IF b[Len(b)] >= 128 THEN Sub(u, Pow2(8 * Len(b))) ELSE u
Gives(r, b) == CASE r.res = "real" -> r.r = b
                 [] r.res = "uint" -> Unsigned(b, r.r)
                 [] r.res = "int" -> Signed(b, r.r)
(* v (unsigned) is the pattern of a not-a-number: beyond infinity's, sign aside *)
NanWord(f, v) == LET w == IF f = "R" THEN 31 ELSE 63
                     p == Prec(f) - 1
                     inf == Sub(Pow2(w), Pow2(p))
                 IN Lt(inf, IF Lt(v, Pow2(w)) THEN v ELSE Sub(v, Pow2(w)))
BitsVerdict(r) ==
  IF r.out = "nosym" THEN "not exported"
  ELSE IF r.out # "ok" THEN "the call failed: " \o r.out
  ELSE CASE r.op \in {"SHL", "SHR", "ROL", "ROR"} ->
              IF Gives(r, BytesOf(Moved(r.op, BitsOf(r.a), r.n))) THEN "ok" ELSE "wrong bits"
         [] r.op = "endian" ->
              IF Gives(r, Swapped(r.name, r.a)) THEN "ok"
              ELSE IF r.res = "real" /\ r.name \in Swapping /\ r.r = r.a THEN "known:RealSwap" ELSE "wrong bytes"
         [] r.op = "valid" -> IF (r.r = 1) = IsFin(Dec(r.f, r.a)) THEN "ok" ELSE "wrong validity"
         [] r.op = "bcd" -> IF (r.r = 1) = IsBcd(r.a) THEN "ok" ELSE "wrong validity"
         [] r.op = "bits" ->
              IF IsNan(Dec(r.f, r.a))
              THEN (IF IF r.res = "real" THEN IsNan(Dec(r.f, r.r)) ELSE NanWord(r.f, r.r) THEN "ok" ELSE "not a not-a-number")
              ELSE IF Gives(r, r.a) THEN "ok" ELSE "wrong bits"
BitsClass(r) == r.sym \o "." \o (IF r.op \in {"SHL", "SHR", "ROL", "ROR"} THEN (IF r.n = Zero THEN "0" ELSE IF Lt(r.n, Big(8 * Len(r.a))) THEN "in" ELSE "over")
                                 ELSE IF r.op \in {"bits", "valid"} THEN Dec(r.f, r.a).k ELSE "") \o "." \o r.out

VARIABLES l, bad, cov
INSTANCE Judge WITH Verdict <- BitsVerdict, Class <- BitsClass
=============================================================================
