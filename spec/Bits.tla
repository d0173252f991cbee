-------------------------------- MODULE Bits --------------------------------
(* Words as sequences of bits, least significant first, and as memory (bytes,*)
(* least significant first). Shifts and rotations move bits by n places;     *)
(* endianness conversions reverse bytes; BCD groups.                         *)
EXTENDS Float

BitsOf(b) == [i \in 1..(8 * Len(b)) |-> (b[((i - 1) \div 8) + 1] \div 2^((i - 1) % 8)) % 2]
BytesOf(x) == [j \in 1..(Len(x) \div 8) |-> FoldLeft(LAMBDA acc, k : 2 * acc + x[8 * j - k], 0, [k \in 1..8 |-> k - 1])]

(* closed forms; n is a BigInt >= 0                                          *)
Amount(x, n) == IF Lt(n, Big(Len(x))) THEN ToInt(n) ELSE Len(x)
Places(x, n) == FloorDivSmall(n, Len(x)).r
Shl(x, n) == LET k == Amount(x, n) IN [i \in 1..Len(x) |-> IF i <= k THEN 0 ELSE x[i - k]]
Shr(x, n) == LET k == Amount(x, n) IN [i \in 1..Len(x) |-> IF i + k > Len(x) THEN 0 ELSE x[i + k]]
Rol(x, n) == LET k == Places(x, n) IN [i \in 1..Len(x) |-> x[((i - 1 - k + Len(x)) % Len(x)) + 1]]
Ror(x, n) == LET k == Places(x, n) IN [i \in 1..Len(x) |-> x[((i - 1 + k) % Len(x)) + 1]]
Moved(op, x, n) == CASE op = "SHL" -> Shl(x, n) [] op = "SHR" -> Shr(x, n) [] op = "ROL" -> Rol(x, n) [] op = "ROR" -> Ror(x, n)

(* one place at a time                                                       *)
Step(op, x) == CASE op = "SHL" -> <<0>> \o SubSeq(x, 1, Len(x) - 1)
                 [] op = "SHR" -> Tail(x) \o <<0>>
                 [] op = "ROL" -> <<x[Len(x)]>> \o SubSeq(x, 1, Len(x) - 1)
                 [] op = "ROR" -> Tail(x) \o <<x[1]>>

Swapping == {"TO_BIG_ENDIAN", "FROM_LITTLE_ENDIAN"}
Swapped(op, b) == IF op \in Swapping THEN Reverse(b) ELSE b

IsBcd(b) == \A i \in DOMAIN b : b[i] % 16 <= 9 /\ b[i] \div 16 <= 9
=============================================================================
