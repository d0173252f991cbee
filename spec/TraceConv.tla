----------------------------- MODULE TraceConv -----------------------------
(* Recorded conversions: r.from and r.to the types, r.x the argument (BigInt, *)
(* or the memory of a real), r.r the result (BigInt, 0/1 of a BOOL, memory    *)
(* of a real). Also TRUNC, ABS and the conversions of single characters,      *)
(* r.a the code units of a text argument up to its terminator.                *)
EXTENDS Conversions, Json, IOUtils, TLC

Arg(r) == IF r.from \in DOMAIN RealType THEN Dec(RealType[r.from], r.x) ELSE [k |-> "int", m |-> r.x]
RealOfInt(f, v, y) == IF v = Zero THEN IsZero(y) /\ ~y.neg ELSE IsFin(y) /\ y.neg = (v.s < 0) /\ Nearest(f, y, Abs(v), One)
Convert(r) ==
  LET x == Arg(r) IN
  IF r.to = "BOOL"
  THEN IF r.r \notin {0, 1} THEN "not a truth value" ELSE IF r.r = ToBool(r.from, r.x) THEN "ok" ELSE "wrong truth value"
  ELSE IF r.to \in DOMAIN RealType
  THEN LET f == RealType[r.to]
           y == Dec(f, r.r)
       IN IF x.k = "int" THEN (IF RealOfInt(f, x.m, y) THEN "ok" ELSE "not the nearest representable number")
          ELSE IF IsFin(x) THEN (IF ~IsNan(y) /\ y.neg = x.neg /\ Nearest(f, y, Mag(x).n, Mag(x).d) THEN "ok" ELSE "not the nearest representable number")
          ELSE IF y.k = x.k /\ (IsNan(x) \/ y.neg = x.neg) THEN "ok" ELSE "wrong special value"
  ELSE IF x.k = "int" THEN (IF r.r = ToInteger(r.to, x.m) THEN "ok" ELSE "not the value or its low-order bits")
  ELSE IF ~IsFin(x) \/ ~InRange(r.to, x) THEN "ok"
  ELSE IF Fits(r.to, r.r) /\ IsRounded(r.r, x) THEN "ok" ELSE "not rounded half away from zero"
Truncate(r) == LET x == Arg(r) IN
  IF ~IsFin(x) \/ ~InTrunc("LINT", x) THEN "ok" ELSE IF IsTruncated(r.r, x) THEN "ok" ELSE "not truncated"
Absolute(r) ==
  IF r.from \in DOMAIN RealType
  THEN LET x == Arg(r)
           y == Dec(RealType[r.from], r.r)
       IN IF IsNan(x) THEN (IF IsNan(y) THEN "ok" ELSE "not a not-a-number")
          ELSE IF y = [x EXCEPT !.neg = FALSE] \/ (IsZero(x) /\ IsZero(y)) THEN "ok" ELSE "not the absolute value"
  ELSE IF ~Fits(r.from, Abs(r.x)) THEN "ok"      \* the most negative value has none
  ELSE IF r.r = Abs(r.x) THEN "ok" ELSE "not the absolute value"
(* texts of one character and first characters of texts                       *)
First(r) == IF r.r = Big(r.a[1]) THEN "ok" ELSE "not the first character"
Single(r) ==
  IF r.x = Zero THEN (IF r.bufs[1][1] = 0 THEN "ok" ELSE "not the empty text")
  ELSE IF r.bufs[1] = <<ToInt(r.x), 0>> THEN "ok"
  ELSE "not the text of the one character"

ConvVerdict(r) ==
  IF r.out = "nosym" THEN "the function is not defined"
  ELSE IF r.out # "ok" THEN "the call failed: " \o r.out
  ELSE IF "overwrite" \in {r.notes[i] : i \in DOMAIN r.notes} THEN "memory outside the result was changed"
  ELSE IF r.s # 1 THEN "the argument was changed"
  ELSE CASE r.op = "conv" -> Convert(r) [] r.op = "trunc" -> Truncate(r) [] r.op = "abs" -> Absolute(r)
         [] r.op = "first" -> First(r) [] r.op = "single" -> Single(r)
ConvClass(r) == r.sym \o "." \o (IF r.from = "" THEN "" ELSE LET x == Arg(r) IN IF x.k # "int" THEN x.k ELSE IF x.m.s < 0 THEN "neg" ELSE "pos")

VARIABLES l, bad, cov
INSTANCE Judge WITH Verdict <- ConvVerdict, Class <- ConvClass
=============================================================================
