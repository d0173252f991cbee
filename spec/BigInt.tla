------------------------------- MODULE BigInt -------------------------------
(* Exact integers of any size for TLC, whose own integers are 32-bit.        *)
(* A number is [s |-> -1, 0 or 1, m |-> limbs], least significant limb first,*)
(* base 10000, no most-significant zero limb; zero is [s |-> 0, m |-> <<>>]. *)
(* Everything here is defined in TLA+; MCBigInt checks it against TLC's own  *)
(* integers.                                                                 *)
EXTENDS Integers, Sequences, SequencesExt

Base == 10000

RECURSIVE Trim(_)
Trim(m) == IF m = <<>> \/ m[Len(m)] # 0 THEN m ELSE Trim(SubSeq(m, 1, Len(m) - 1))

Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b
AbsI(i) == IF i < 0 THEN -i ELSE i

(* carry propagation over a sequence of column sums (each < 2^31 - carry)    *)
Carry(cols) ==
  LET step(acc, c) == LET v == c + acc.c IN [c |-> v \div Base, m |-> Append(acc.m, v % Base)]
      r == FoldLeft(step, [c |-> 0, m |-> <<>>], cols)
      tail == IF r.c = 0 THEN <<>>
              ELSE IF r.c < Base THEN <<r.c>>
              ELSE <<r.c % Base, r.c \div Base>>
  IN Trim(r.m \o tail)

(* -1, 0, 1: comparison of magnitudes                                        *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
                    ELSE CmpFrom(a, b, i - 1)
MCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))

MAdd(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
              ELSE Carry([i \in 1..MaxOf(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)])

(* a - b for a >= b                                                          *)
MSub(a, b) ==
  LET step(acc, i) == LET v == a[i] - Limb(b, i) - acc.c
                      IN IF v < 0 THEN [c |-> 1, m |-> Append(acc.m, v + Base)]
                                  ELSE [c |-> 0, m |-> Append(acc.m, v)]
  IN IF b = <<>> THEN a
     ELSE Trim(FoldLeft(step, [c |-> 0, m |-> <<>>], [i \in 1..Len(a) |-> i]).m)

(* product; the shorter factor must have at most 20 limbs (80 digits)        *)
MMulShort(a, b) ==
  LET na == Len(a)
      nb == Len(b)
      col(k) == LET lo == MaxOf(1, k - nb + 1)
                    hi == MinOf(na, k)
                IN FoldLeft(LAMBDA acc, i : acc + a[i] * b[k - i + 1], 0, [j \in 1..(hi - lo + 1) |-> lo + j - 1])
  IN IF na = 0 \/ nb = 0 THEN <<>> ELSE Carry([k \in 1..(na + nb - 1) |-> col(k)])

ShiftLimbs(m, n) == IF m = <<>> THEN <<>> ELSE [i \in 1..n |-> 0] \o m

RECURSIVE MMul(_, _)
MMul(a, b) ==
  IF Len(a) > Len(b) THEN MMul(b, a)
  ELSE IF Len(a) <= 20 THEN MMulShort(a, b)
  ELSE MAdd(MMulShort(SubSeq(a, 1, 20), b), ShiftLimbs(MMul(SubSeq(a, 21, Len(a)), b), 20))

(* m \div k and m % k for 0 < k <= 200000                                    *)
MDivSmall(m, k) ==
  LET n == Len(m)
      step(acc, i) == LET v == acc.r * Base + m[n + 1 - i] IN [r |-> v % k, q |-> Append(acc.q, v \div k)]
      res == FoldLeft(step, [r |-> 0, q |-> <<>>], [i \in 1..n |-> i])
  IN [q |-> Trim(Reverse(res.q)), r |-> res.r]

RECURSIVE NatLimbs(_)
NatLimbs(i) == IF i = 0 THEN <<>> ELSE <<i % Base>> \o NatLimbs(i \div Base)

Big(i) == IF i = 0 THEN [s |-> 0, m |-> <<>>]
          ELSE IF i > 0 THEN [s |-> 1, m |-> NatLimbs(i)] ELSE [s |-> -1, m |-> NatLimbs(-i)]
Zero == [s |-> 0, m |-> <<>>]
One == Big(1)
Mk(s, m) == IF m = <<>> THEN Zero ELSE [s |-> s, m |-> m]
IsBig(a) == /\ a.s \in {-1, 0, 1}
            /\ (a.s = 0) <=> (a.m = <<>>)
            /\ \A i \in DOMAIN a.m : a.m[i] \in 0..(Base - 1)
            /\ a.m # <<>> => a.m[Len(a.m)] # 0

Neg(a) == [s |-> -a.s, m |-> a.m]
Abs(a) == [s |-> IF a.s = 0 THEN 0 ELSE 1, m |-> a.m]

Add(a, b) == IF a.s = 0 THEN b
             ELSE IF b.s = 0 THEN a
             ELSE IF a.s = b.s THEN [s |-> a.s, m |-> MAdd(a.m, b.m)]
             ELSE LET c == MCmp(a.m, b.m) IN
                  IF c = 0 THEN Zero
                  ELSE IF c > 0 THEN [s |-> a.s, m |-> MSub(a.m, b.m)]
                  ELSE [s |-> b.s, m |-> MSub(b.m, a.m)]
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == IF a.s = 0 \/ b.s = 0 THEN Zero ELSE [s |-> a.s * b.s, m |-> MMul(a.m, b.m)]
MulI(a, i) == Mul(a, Big(i))
Cmp(a, b) == IF a.s # b.s THEN (IF a.s < b.s THEN -1 ELSE 1)
             ELSE IF a.s = 0 THEN 0 ELSE a.s * MCmp(a.m, b.m)
Lt(a, b) == Cmp(a, b) < 0
Leq(a, b) == Cmp(a, b) <= 0
Eq(a, b) == a = b
BMax(a, b) == IF Lt(a, b) THEN b ELSE a
BMin(a, b) == IF Lt(b, a) THEN b ELSE a

(* floor division and (non-negative) remainder by a small positive integer   *)
FloorDivSmall(a, k) ==
  LET d == MDivSmall(a.m, k) IN
  IF a.s >= 0 THEN [q |-> Mk(1, d.q), r |-> d.r]
  ELSE IF d.r = 0 THEN [q |-> Mk(-1, d.q), r |-> 0]
  ELSE [q |-> Sub(Mk(-1, d.q), One), r |-> k - d.r]

RECURSIVE MToInt(_, _)
MToInt(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + Base * MToInt(m, i + 1)
FitsInt(a) == MCmp(a.m, NatLimbs(2147483647)) <= 0
ToInt(a) == a.s * MToInt(a.m, 1)

RECURSIVE Pow2(_)
Pow2(n) == IF n <= 13 THEN Big(2^n)
           ELSE IF n % 2 = 0 THEN LET h == Pow2(n \div 2) IN Mul(h, h)
           ELSE Mul(Pow2(n - 1), Big(2))
RECURSIVE Pow10(_)
Pow10(n) == IF n <= 3 THEN Big(10^n)
            ELSE [s |-> 1, m |-> [i \in 1..(n \div 4) |-> 0] \o <<10^(n % 4)>>]
RECURSIVE PowB(_, _)
PowB(a, n) == IF n = 0 THEN One
              ELSE IF n % 2 = 1 THEN Mul(a, PowB(a, n - 1))
              ELSE LET h == PowB(a, n \div 2) IN Mul(h, h)

(* decimal digits, most significant first                                    *)
LimbDigits(v) == <<v \div 1000, (v \div 100) % 10, (v \div 10) % 10, v % 10>>
RECURSIVE DropZeros(_)
DropZeros(ds) == IF Len(ds) > 1 /\ ds[1] = 0 THEN DropZeros(Tail(ds)) ELSE ds
Digits(m) == IF m = <<>> THEN <<0>>
             ELSE DropZeros(FoldLeft(LAMBDA acc, v : LimbDigits(v) \o acc, <<>>, m))
(* value of a digit sequence in a small base (2..36)                         *)
FromDigits(ds, b) == FoldLeft(LAMBDA acc, d : Add(MulI(acc, b), Big(d)), Zero, ds)
(* decimal digits, most significant first, to a number (fast)                *)
RECURSIVE DecLimbs(_)
DecLimbs(ds) == IF ds = <<>> THEN <<>>
                ELSE LET n == Len(ds)
                         k == IF n >= 4 THEN 4 ELSE n
                         t == SubSeq(ds, n - k + 1, n)
                     IN <<FoldLeft(LAMBDA acc, d : 10 * acc + d, 0, t)>> \o DecLimbs(SubSeq(ds, 1, n - k))
FromDec(ds) == Mk(1, Trim(DecLimbs(ds)))
(* bytes, least significant first                                            *)
FromBytesLE(bs) == FoldLeft(LAMBDA acc, b : Add(MulI(acc, 256), Big(b)), Zero, Reverse(bs))

(* ranges of the machine integer types                                       *)
P63 == Pow2(63)
P64 == Pow2(64)
P32 == Pow2(32)
I64Min == Neg(P63)
I64Max == Sub(P63, One)
U64Max == Sub(P64, One)
InI64(a) == Leq(I64Min, a) /\ Leq(a, I64Max)
Within(a, lo, hi) == Leq(lo, a) /\ Leq(a, hi)
=============================================================================
