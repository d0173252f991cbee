------------------------------ MODULE MCBigInt ------------------------------
(* BigInt agrees with TLC's own integers wherever those do not overflow, and *)
(* obeys the ring laws beyond.                                               *)
EXTENDS BigInt, TLC

Small == {-20001, -10000, -9999, -1, 0, 1, 2, 7, 9999, 10000, 10001, 19999, 20000}
Huge == {Pow2(63), Pow2(64), Pow10(19), Pow2(200), Sub(Pow2(100), Pow2(3))}
VARIABLES a, b
Init == a \in Small /\ b \in Small
Next == UNCHANGED <<a, b>>
Agrees ==
  /\ ToInt(Add(Big(a), Big(b))) = a + b
  /\ ToInt(Sub(Big(a), Big(b))) = a - b
  /\ ToInt(Mul(Big(a), Big(b))) = a * b
  /\ Lt(Big(a), Big(b)) <=> a < b
  /\ Leq(Big(a), Big(b)) <=> a <= b
  /\ IsBig(Add(Big(a), Big(b))) /\ IsBig(Mul(Big(a), Big(b))) /\ IsBig(Sub(Big(a), Big(b)))
  /\ b > 0 => LET d == FloorDivSmall(Big(a), b) IN d.r = a % b /\ ToInt(d.q) = a \div b
  /\ \A h \in Huge : /\ Sub(Add(h, Big(a)), h) = Big(a)
                     /\ Mul(h, Add(Big(a), Big(b))) = Add(Mul(h, Big(a)), Mul(h, Big(b)))
                     /\ FromDec(Digits(h.m)) = h
ASSUME Digits(Pow2(64).m) = <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,6>>
ASSUME Digits(Pow2(63).m) = <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
ASSUME FromBytesLE(<<0, 0, 0, 0, 0, 0, 0, 0, 1>>) = Pow2(64)
ASSUME \A x, y \in Huge : Mul(x, y) = Mul(y, x)
ASSUME Mul(Pow2(700), Pow2(374)) = Pow2(1074)
=============================================================================
