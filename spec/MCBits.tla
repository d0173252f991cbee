------------------------------- MODULE MCBits -------------------------------
(* Every byte (and selected 16-bit words) moved place by place must agree    *)
(* with the closed forms after any number of places.                         *)
EXTENDS Bits
CONSTANT MaxN
Ops == {"SHL", "SHR", "ROL", "ROR"}
Words == {<<v>> : v \in 0..255} \cup {<<a, b>> : a \in {0, 1, 128, 165}, b \in {0, 1, 128, 255}}
VARIABLES op, x0, x, n
vars == <<op, x0, x, n>>
Init == op = "none" /\ x0 = <<>> /\ x = <<>> /\ n = 0
Next == \/ op = "none" /\ op' \in Ops /\ x0' \in Words /\ x' = BitsOf(x0') /\ n' = 0
        \/ op # "none" /\ n < MaxN /\ n' = n + 1 /\ x' = Step(op, x) /\ UNCHANGED <<op, x0>>
Spec == Init /\ [][Next]_vars
Bs == BitsOf(x0)
Count(s) == FoldLeft(LAMBDA acc, b : acc + b, 0, s)
Closed == op # "none" => x = Moved(op, Bs, Big(n))
Wide == op # "none" => LET far == Add(Big(n), MulI(Pow2(28), 8 * Len(x0)))
                       IN /\ (op \in {"SHL", "SHR"} /\ n >= Len(x)) => \A i \in DOMAIN x : x[i] = 0
                          /\ op \in {"SHL", "SHR"} => \A i \in DOMAIN x : Moved(op, Bs, far)[i] = 0
                          /\ op \in {"ROL", "ROR"} => Moved(op, Bs, far) = x /\ Count(x) = Count(Bs)
Undo == /\ op = "ROL" => Ror(x, Big(n)) = Bs
        /\ op = "ROR" => Rol(x, Big(n)) = Bs
Memory == op # "none" /\ n = 0 =>
          /\ BytesOf(x) = x0
          /\ FromBytesLE(x0) = FoldLeft(LAMBDA acc, i : Add(acc, MulI(Pow2(i - 1), x[i])), Zero, [i \in 1..Len(x) |-> i])
          /\ \A o \in Swapping : Swapped(o, Swapped(o, x0)) = x0
          /\ IsBcd(x0) <=> \A k \in 0..(2 * Len(x0) - 1) : x[4 * k + 1] + 2 * x[4 * k + 2] + 4 * x[4 * k + 3] + 8 * x[4 * k + 4] < 10
ASSUME Swapped("TO_BIG_ENDIAN", <<1, 2, 3, 4>>) = <<4, 3, 2, 1>> /\ Swapped("TO_LITTLE_ENDIAN", <<1, 2>>) = <<1, 2>>
ASSUME Shl(BitsOf(<<1>>), Big(3)) = BitsOf(<<8>>) /\ Shr(BitsOf(<<128>>), Big(7)) = BitsOf(<<1>>)
(* distinct patterns denote distinct numbers                                 *)
Frac4 == {<<0, 0, 0>>, <<1, 0, 0>>, <<255, 255, 127>>, <<254, 255, 127>>, <<0, 0, 64>>}
RBits == {<<f[1], f[2], f[3] + 128 * (e % 2), e \div 2 + 128 * s>> : f \in Frac4, e \in {0, 1, 2, 127, 128, 253, 254, 255}, s \in {0, 1}}
ASSUME \A a, b \in RBits : LET x1 == Dec("R", a)
                               x2 == Dec("R", b)
                           IN a = b \/ x1 # x2 \/ (IsNan(x1) /\ IsNan(x2))
=============================================================================
