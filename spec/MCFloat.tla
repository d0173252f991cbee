------------------------------ MODULE MCFloat ------------------------------
(* The rounding predicate picks exactly one number of the format, the        *)
(* closest one; checked for every fraction n/d of a grid on a tiny format    *)
(* and for all boundary encodings of REAL and LREAL.                         *)
EXTENDS TextNum, FiniteSets
CONSTANT MaxNum

Tiny == {[k |-> "fin", neg |-> FALSE, m |-> Big(m), e |-> -4] : m \in 0..7}
        \cup {[k |-> "fin", neg |-> FALSE, m |-> Big(m), e |-> e] : m \in 4..7, e \in -3..2}
TinyInf == [k |-> "inf", neg |-> FALSE, m |-> Zero, e |-> 0]

Frac4 == {<<0, 0, 0>>, <<1, 0, 0>>, <<255, 255, 127>>, <<254, 255, 127>>, <<0, 0, 64>>, <<85, 85, 85>>, <<1, 0, 64>>}
RBits == {<<f[1], f[2], f[3] + 128 * (e % 2), e \div 2>> : f \in Frac4, e \in {0, 1, 2, 126, 127, 128, 253, 254}}
LFrac == {<<0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 15>>, <<0, 0, 0, 0, 0, 0, 8>>, <<85, 85, 85, 85, 85, 85, 5>>}
LBits == {<<f[1], f[2], f[3], f[4], f[5], f[6], f[7] + 16 * (e % 16), e \div 16>> : f \in LFrac, e \in {0, 1, 2, 1022, 1023, 1024, 2045, 2046}}
Items == {[f |-> "T", n |-> n, d |-> d] : n \in 0..MaxNum, d \in {1, 3, 16, 17, 32, 64, 96}}
         \cup {[f |-> "R", b |-> b] : b \in RBits} \cup {[f |-> "L", b |-> b] : b \in LBits}
         \cup {[f |-> "N", v |-> v] : v \in {-9999, -10, -1, 0, 1, 7, 8, 9, 10, 15, 16, 99, 9999, 10000, 123456789}}

VARIABLES it
Init == it = [f |-> "none"]
Next == it.f = "none" /\ it' \in Items
Spec == Init /\ [][Next]_it

Succ(f, b) ==   \* next larger encoding
  LET RECURSIVE inc(_, _)
      inc(x, i) == IF x[i] < 255 THEN [x EXCEPT ![i] = @ + 1] ELSE inc([x EXCEPT ![i] = 0], i + 1)
  IN inc(b, 1)

Dist(x, n, d) == Abs(Sub(Mul(n, Mag(x).d), Mul(Mag(x).n, d)))       \* times d * den(x)
OnlyOne == it.f = "T" =>
  LET n == Big(it.n)
      d == Big(it.d)
      S == {x \in Tiny : Nearest("T", x, n, d)} \cup (IF Nearest("T", TinyInf, n, d) THEN {TinyInf} ELSE {})
  IN /\ Cardinality(S) = 1
     /\ \A x \in S : IsFin(x) => \A y \in Tiny :
          Leq(Mul(Dist(x, n, d), Mag(y).d), Mul(Dist(y, n, d), Mag(x).d))
Self == it.f \in {"R", "L"} =>
  LET x == Dec(it.f, it.b)
      y == Dec(it.f, Succ(it.f, it.b))
      v == Mag(x)
  IN /\ Nearest(it.f, x, v.n, v.d) /\ ~Nearest(it.f, y, v.n, v.d)
     /\ IsFin(y) => LET w == Mag(y)
                        mn == Add(Mul(v.n, w.d), Mul(w.n, v.d))       \* the middle of x and y
                        md == MulI(Mul(v.d, w.d), 2)
                        k == MulI(mn, 1000)
                        kd == MulI(md, 1000)
                        tiny == Mul(Pow2(60), Pow10(3))
                    IN /\ Nearest(it.f, x, mn, md) # Nearest(it.f, y, mn, md)
                       /\ Nearest(it.f, IF IsEven(x.m) THEN x ELSE y, mn, md)
                       /\ Nearest(it.f, x, Sub(Mul(mn, tiny), One), Mul(md, tiny)) /\ ~Nearest(it.f, y, Sub(Mul(mn, tiny), One), Mul(md, tiny))
                       /\ Nearest(it.f, y, Add(Mul(mn, tiny), One), Mul(md, tiny)) /\ ~Nearest(it.f, x, Add(Mul(mn, tiny), One), Mul(md, tiny))
                       /\ FCmp(x, y) = -1 /\ FCmp(y, x) = 1 /\ FCmp(x, x) = 0
Ints == it.f = "N" =>
  /\ ParseInt(IntText(Big(it.v)), I64Min, I64Max) = [ok |-> TRUE, v |-> Big(it.v)]
  /\ ~ParseInt(<<48, 120>> \o <<>>, I64Min, I64Max).ok
  /\ LET p == Decimal(IntText(Big(it.v)) \o <<46, 50, 53, 69, 45, 48, 55>>)      \* <v>.25E-07
     IN p.ok /\ p.neg = (it.v < 0) /\ p.x = -9 /\ p.n = Add(MulI(Abs(Big(it.v)), 100), Big(25))
ASSUME ParseInt(<<49, 54, 35, 70, 102>>, Zero, Big(255)).v = Big(255)
ASSUME ~ParseInt(<<49, 54, 35, 70, 102>>, Zero, Big(254)).ok
ASSUME \A u \in {<<>>, <<46>>, <<43>>, <<46, 101, 49>>, <<49, 101>>, <<49, 101, 43>>, <<49, 32>>, <<49, 46, 46>>, <<45, 45, 49>>} : ~Decimal(u).ok
ASSUME \A u \in {<<49>>, <<46, 49>>, <<49, 46>>, <<43, 49, 101, 43, 49>>, <<49, 69, 48>>} : Decimal(u).ok
(* 0.1 in both formats, and their texts *)
ASSUME NearestDec("R", Dec("R", <<205, 204, 204, 61>>), One, -1)
ASSUME NearestDec("L", Dec("L", <<154, 153, 153, 153, 153, 153, 185, 63>>), One, -1)
ASSUME RealText(<<48, 46, 49, 48, 48, 48, 48, 48>>, Dec("L", <<154, 153, 153, 153, 153, 153, 185, 63>>), 14) = "ok"
ASSUME RealText(<<48, 46, 49, 48, 48, 48, 48, 49>>, Dec("L", <<154, 153, 153, 153, 153, 153, 185, 63>>), 14) # "ok"
=============================================================================
