---------------------------- MODULE MCSelection ----------------------------
(* Lists are built one element at a time by a running maximum and minimum;   *)
(* the running results must satisfy the requirement, and the requirement     *)
(* must be satisfiable by one value only (up to the sign of zero).           *)
EXTENDS Selection
CONSTANT MaxLen

I(i) == [f |-> "", v |-> Big(i)]
D(k, ng, m) == [f |-> "R", v |-> [k |-> k, neg |-> ng, m |-> m, e |-> -3]]
Ints == {I(i) : i \in {-3, -1, 0, 2, 70000}}
Reals == {D("nan", FALSE, Zero), D("inf", FALSE, Zero), D("inf", TRUE, Zero), D("fin", FALSE, Zero), D("fin", TRUE, Zero),
          D("fin", FALSE, One), D("fin", TRUE, One), D("fin", FALSE, Big(8388608))}

VARIABLES xs, mx, mn
Init == xs = <<>> /\ mx = I(0) /\ mn = I(0)
Next == /\ Len(xs) < MaxLen
        /\ \E x \in Ints \cup Reals :
             /\ IF xs = <<>> THEN TRUE ELSE xs[1].f = x.f
             /\ xs' = Append(xs, x)
             /\ mx' = IF xs = <<>> \/ NoNumber(mx) \/ Less(mx, x) THEN x ELSE mx
             /\ mn' = IF xs = <<>> \/ NoNumber(mn) \/ Less(x, mn) THEN x ELSE mn
Spec == Init /\ [][Next]_<<xs, mx, mn>>

Same(x, y) == ~Less(x, y) /\ ~Less(y, x)
Running == xs # <<>> => IsMax(mx, xs) /\ IsMin(mn, xs)
Unique == (xs # <<>> /\ \A i \in DOMAIN xs : ~NoNumber(xs[i])) =>
          \A i, j \in DOMAIN xs : /\ IsMax(xs[i], xs) /\ IsMax(xs[j], xs) => Same(xs[i], xs[j])
                                  /\ IsMin(xs[i], xs) /\ IsMin(xs[j], xs) => Same(xs[i], xs[j])
                                  /\ Less(xs[i], xs[j]) => ~IsMax(xs[i], xs) /\ ~IsMin(xs[j], xs)
Clamps == Len(xs) = 3 =>
          LET lo == xs[1]
              x == xs[2]
              hi == xs[3]
              y == Clamp(lo, x, hi)
          IN /\ y \in {lo, x, hi}
             /\ (Less(lo, hi) /\ ~NoNumber(x)) => ~Less(y, lo) /\ ~Less(hi, y) /\ Clamp(lo, y, hi) = y
             /\ (~Less(x, lo) /\ ~Less(hi, x)) => y = x
             /\ Less(x, lo) => y = lo
             \* with ordered bounds, clamping is the median: max(lo, min(x, hi))
             /\ (Less(lo, hi) /\ ~NoNumber(x)) => IsMax(y, <<lo, y>>) /\ IsMin(y, <<y, hi>>)
ASSUME Value("SINT", <<255>>).v = Big(-1) /\ Value("BYTE", <<255>>).v = Big(255)
ASSUME Value("LINT", <<0, 0, 0, 0, 0, 0, 0, 128>>).v = I64Min /\ Value("LWORD", <<255, 255, 255, 255, 255, 255, 255, 255>>).v = U64Max
ASSUME Less(Value("REAL", <<0, 0, 128, 191>>), Value("REAL", <<0, 0, 0, 128>>)) /\ ~Less(Value("REAL", <<0, 0, 0, 128>>), Value("REAL", <<0, 0, 0, 0>>))
=============================================================================
