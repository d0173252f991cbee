------------------------------ MODULE MCBasics ------------------------------
(* Edge detectors and latches against their definition by history.           *)
EXTENDS Integers, Sequences
CONSTANT MaxCalls
INSTANCE Basics
VARIABLES e, f, a, b, h, a0, b0
vars == <<e, f, a, b, h, a0, b0>>
Init == /\ e = EdgeFresh /\ f = EdgeFresh /\ h = <<>>
        /\ a0 \in BOOLEAN /\ b0 \in BOOLEAN /\ a = [q |-> a0] /\ b = [q |-> b0]
Next == /\ Len(h) < MaxCalls
        /\ \E x, y \in BOOLEAN :
             /\ h' = Append(h, <<x, y>>)
             /\ e' = RTrig(e, x) /\ f' = FTrig(f, x)
             /\ a' = SetDominant(a, x, y) /\ b' = ResetDominant(b, x, y)
        /\ UNCHANGED <<a0, b0>>
Spec == Init /\ [][Next]_vars
N == Len(h)
X(i) == i >= 1 /\ h[i][1]
EdgeDef == N > 0 => e.q = (X(N) /\ ~X(N - 1)) /\ f.q = (~X(N) /\ X(N - 1))
NeverTwoPulses == [][~(e.q /\ e'.q) /\ ~(f.q /\ f'.q)]_vars
(* a latch shows what its last effective input said                          *)
Last(P(_)) == LET S == {i \in 1..N : P(i)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
SRDef == LET i == Last(LAMBDA k : h[k][1] \/ h[k][2]) IN a.q = IF i = 0 THEN a0 ELSE h[i][1]
RSDef == LET i == Last(LAMBDA k : h[k][1] \/ h[k][2]) IN b.q = IF i = 0 THEN b0 ELSE ~h[i][2]
=============================================================================
