---------------------------- MODULE MCTimeArith ----------------------------
(* The arithmetic requirements, on every pair of a set of boundary values.   *)
EXTENDS TimeArith, FiniteSets
Near(v) == {v, Add(v, One), Sub(v, One)}
Values == {x \in UNION {Near(v) : v \in {Zero, Big(3), Big(-7), Big(1000), Pow2(31), Neg(Pow2(31)), Pow2(32), Pow10(9), Pow10(18), P63, Neg(P63), P64,
           Pow2(53), Mul(Big(86400), Pow10(9))}} : Leq(I64Min, x) /\ Leq(x, U64Max)}
VARIABLES a, b, n
Init == a = Zero /\ b = Zero /\ n = 0
Next == \/ n = 0 /\ n' = 1 /\ a' \in {x \in Values : InI64(x)} /\ UNCHANGED b
        \/ n = 1 /\ n' = 2 /\ b' \in Values /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b, n>>
SumMeans == \A op \in Adds \cup Subs : LET r == Sum(op, a, b) IN
  /\ r.ok => InI64(r.v)
  /\ InI64(b) /\ r.ok => (op \in Adds => Sum("SUB_TIME", r.v, b) = Fits(a)) /\ (op \in Subs => Sum("ADD_TIME", r.v, b) = Fits(a))
ProductMeans == LET r == Product(a, b) IN
  /\ r.ok /\ b # Zero => IsQuotient(a, r.v, b)
  /\ r.ok /\ InI64(b) => Product(b, a) = r
Quotients == {q \in Values : InI64(q) /\ IsQuotient(q, a, b)}
QuotientMeans == b # Zero =>
  /\ Cardinality(Quotients) <= 1
  /\ a = b /\ Divides(a, b) => IsQuotient(One, a, b)
  /\ Divides(a, b) /\ Lt(Abs(a), Abs(b)) => Quotients = {Zero}
  /\ b = One => IsQuotient(a, a, b)
  /\ InI64(a) /\ b = Big(-1) => IsQuotient(Neg(a), a, b) /\ (Divides(a, b) <=> InI64(Neg(a)))
(* scaling by the real 2^k agrees with the integer product or quotient       *)
Powers == {-3, 0, 5, 31, 62}
RealPow(f, k) == [k |-> "fin", neg |-> FALSE, m |-> Hidden(f), e |-> k - (Prec(f) - 1)]
ScaleMeans == \A f \in {"R", "L"}, k \in Powers :
  LET x == RealPow(f, k)
      p == IF k >= 0 THEN Mul(a, Pow2(k)) ELSE Zero
  IN /\ k >= 0 /\ InI64(p) => Scale(f, TRUE, "ok", p, a, x) = "ok"
     /\ k >= 0 /\ InI64(p) /\ p # Zero => Scale(f, TRUE, "ok", Neg(p), a, x) # "ok"
     /\ k >= 0 /\ Lt(Abs(p), Pow2(60)) => Scale(f, TRUE, "panic", Zero, a, x) # "ok"
     /\ k >= 0 /\ Lt(Pow2(66), Abs(p)) => Scale(f, TRUE, "panic", Zero, a, x) = "ok" /\ Scale(f, TRUE, "ok", a, a, x) # "ok"
     /\ k >= 0 /\ InI64(p) => Scale(f, FALSE, "ok", a, p, x) = "ok"
     /\ Scale(f, FALSE, "ok", a, a, [x EXCEPT !.m = Zero]) # "ok"
     /\ Scale(f, FALSE, "panic", a, a, [x EXCEPT !.m = Zero]) = "ok"
=============================================================================
