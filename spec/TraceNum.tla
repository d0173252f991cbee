----------------------------- MODULE TraceNum ------------------------------
(* Recorded conversions between numbers and their texts.                     *)
(*  write: v (BigInt) or f, x (format and bytes); bufs[1] the text           *)
(*  read:  a (memory of the source), ty; r the result                        *)
EXTENDS TextNum, Json, IOUtils

RECURSIVE ToZero(_, _)
ToZero(u, i) == IF u[i] = 0 THEN SubSeq(u, 1, i - 1) ELSE ToZero(u, i + 1)
Text(u) == ToZero(u, 1)
HasZero(b) == \E i \in DOMAIN b : b[i] = 0
I32Min == Neg(Pow2(31))
I32Max == Sub(Pow2(31), One)
Lo(ty) == IF ty = "DINT" THEN I32Min ELSE I64Min
Hi(ty) == IF ty = "DINT" THEN I32Max ELSE I64Max

Written(r) ==
  IF r.out # "ok" THEN "the conversion failed: " \o r.out
  ELSE IF r.g # 1 THEN "memory outside the result was changed"
  ELSE IF ~HasZero(r.bufs[1]) THEN "the result is not terminated"
  ELSE LET u == Text(r.bufs[1]) IN
       IF r.op = "wint" THEN (IF u = IntText(r.v) THEN "ok" ELSE "the text " \o ToString(u) \o " is not the value's")
       ELSE LET x == Dec(r.f, r.x) IN
            IF IsFin(x) THEN RealText(u, x, r.lim) ELSE IF u = <<>> THEN "no text was written" ELSE "ok"

ReadInt(r) ==
  LET p == ParseInt(Text(r.a), Lo(r.ty), Hi(r.ty)) IN
  IF ~p.ok THEN (IF r.out = "panic" THEN "ok" ELSE "text that denotes no value of the type was not refused")
  ELSE IF r.out # "ok" THEN "the text was refused or the call failed: " \o r.out
  ELSE IF r.r # p.v THEN "wrong value"
  ELSE IF r.s # 1 \/ r.g # 1 THEN "memory was changed" ELSE "ok"

Lower(u) == [i \in 1..Len(u) |-> IF u[i] >= 65 /\ u[i] <= 90 THEN u[i] + 32 ELSE u[i]]
Unsigned(u) == IF u # <<>> /\ u[1] \in {Plus, Minus} THEN Drop(u, 1) ELSE u
InfWords == {<<105, 110, 102>>, <<105, 110, 102, 105, 110, 105, 116, 121>>}
NanWord == <<110, 97, 110>>
ReadReal(r) ==
  LET u == Text(r.a)
      p == Decimal(u)
      w == Unsigned(Lower(u))
  IN IF ~p.ok
     THEN IF r.out = "panic" THEN "ok"
          ELSE IF r.out = "ok" /\ w \in InfWords /\ IsInf(Dec(r.f, r.r)) /\ Dec(r.f, r.r).neg = (u[1] = Minus) THEN "ok"
          ELSE IF r.out = "ok" /\ w = NanWord /\ IsNan(Dec(r.f, r.r)) THEN "ok"
          ELSE "text that is not a number was not refused"
     ELSE IF r.out # "ok" THEN "a number was refused or the call failed: " \o r.out
     ELSE LET x == Dec(r.f, r.r) IN
          IF IsNan(x) THEN "not a number"
          ELSE IF ~NearestDec(r.f, x, p.n, p.x) THEN "not the nearest representable value"
          ELSE IF x.neg # p.neg THEN "wrong sign"
          ELSE IF r.s # 1 \/ r.g # 1 THEN "memory was changed" ELSE "ok"

NumVerdict(r) == IF r.out = "nosym" THEN "not exported"
                 ELSE IF r.op \in {"wint", "wreal"} THEN Written(r)
                 ELSE IF r.op = "rint" THEN ReadInt(r) ELSE ReadReal(r)
Kind(r) == IF r.op = "wreal" THEN Dec(r.f, r.x).k
           ELSE IF r.op = "rint" THEN (IF \E i \in DOMAIN BasePrefixes : HasPrefix(r.a, BasePrefixes[i].p) THEN "based" ELSE "dec")
           ELSE ""
NumClass(r) == r.sym \o "." \o Kind(r) \o "." \o r.out

VARIABLES l, bad, cov
INSTANCE Judge WITH Verdict <- NumVerdict, Class <- NumClass
=============================================================================
