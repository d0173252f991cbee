----------------------------- MODULE TimeArith -----------------------------
(* Arithmetic on durations and dates: exact integers, or refused.            *)
EXTENDS Float

Fits(v) == [ok |-> InI64(v), v |-> v]
No == [ok |-> FALSE, v |-> Zero]

Adds == {"ADD_TIME", "ADD_TOD_TIME", "ADD_DT_TIME"}
Subs == {"SUB_TIME", "SUB_DATE_DATE", "SUB_TOD_TIME", "SUB_TOD_TOD", "SUB_DT_TIME", "SUB_DT_DT"}
Sum(op, a, b) == IF op \in Adds THEN Fits(Add(a, b)) ELSE Fits(Sub(a, b))

Product(a, b) == IF Leq(b, I64Max) THEN Fits(Mul(a, b)) ELSE No
(* q is the quotient a / b truncated toward zero                             *)
IsQuotient(q, a, b) ==
  LET r == Sub(a, Mul(q, b)) IN
  /\ Lt(Abs(r), Abs(b))
  /\ r.s = 0 \/ r.s = a.s
(* whether a / b may be computed: b in range and not 0, result representable *)
Divides(a, b) == b # Zero /\ Leq(b, I64Max) /\ ~(a = I64Min /\ b = Neg(One))

(* --- scaling by a real -------------------------------------------------------
   exact = num/den (den > 0); the answer may be off by 2^-(p-4) of it and one
   nanosecond; within that distance of the end of the range it may be refused *)
Slack(f) == Prec(f) - 4
Close(f, q, num, den) ==
  Leq(Mul(Abs(Sub(Mul(q, den), num)), Pow2(Slack(f))), Add(Abs(num), Mul(den, Pow2(Slack(f)))))
(* |exact| * (1 + 2^-s) + 1 <= 2^63 - 1 : cannot be out of range             *)
SurelyIn(f, num, den) ==
  LET s == Pow2(Slack(f)) IN Leq(Add(Mul(Abs(num), Add(s, One)), Mul(den, s)), Mul(Mul(I64Max, den), s))
(* |exact| * (1 - 2^-s) - 1 > 2^63 : cannot be in range                      *)
SurelyOut(f, num, den) ==
  LET s == Pow2(Slack(f)) IN Lt(Mul(Mul(P63, den), s), Sub(Mul(Abs(num), Sub(s, One)), Mul(den, s)))
(* "ok" or what is wrong with the outcome: out is "ok" (with q) or "panic"   *)
ScaleVerdict(f, out, q, num, den) ==
  IF out = "panic" THEN (IF SurelyIn(f, num, den) THEN "a representable result was refused" ELSE "ok")
  ELSE IF out # "ok" THEN "the call failed: " \o out
  ELSE IF SurelyOut(f, num, den) THEN "a result outside the range was not refused"
  ELSE IF ~Close(f, q, num, den) THEN "not the scaled value"
  ELSE IF q.s # 0 /\ q.s # num.s THEN "wrong sign" ELSE "ok"
Refusal(out) == IF out = "panic" THEN "ok" ELSE "the operation has no result but was not refused (" \o out \o ")"
Scale(f, mul, out, q, t, x) ==
  IF IsNan(x) THEN Refusal(out)
  ELSE IF IsInf(x)
  THEN IF mul THEN Refusal(out)
       ELSE IF out = "ok" /\ q = Zero THEN "ok" ELSE "a time divided by infinity is 0"
  ELSE IF ~mul /\ IsZero(x) THEN Refusal(out)
  ELSE LET y == Rat(x) IN
       IF mul THEN ScaleVerdict(f, out, q, Mul(t, y.n), y.d)
       ELSE ScaleVerdict(f, out, q, IF y.n.s < 0 THEN Neg(Mul(t, y.d)) ELSE Mul(t, y.d), Abs(y.n))
=============================================================================
