------------------------------ MODULE TextNum ------------------------------
(* Decimal and based texts of numbers, as sequences of character codes.      *)
EXTENDS Float

Dot == 46
Plus == 43
Minus == 45
Chr0 == 48
IsDigit(c) == c >= 48 /\ c <= 57
Drop(u, n) == SubSeq(u, n + 1, Len(u))
HasPrefix(u, p) == Len(u) >= Len(p) /\ SubSeq(u, 1, Len(p)) = p

(* --- integers --------------------------------------------------------------- *)
IntText(v) == LET ds == Digits(v.m)
                  cs == [i \in 1..Len(ds) |-> 48 + ds[i]]
              IN IF v.s < 0 THEN <<Minus>> \o cs ELSE cs

(* prefix and base: 16# 0x 0X 8# 2# 0b 0B                                    *)
BasePrefixes == << [p |-> <<49, 54, 35>>, b |-> 16], [p |-> <<48, 120>>, b |-> 16], [p |-> <<48, 88>>, b |-> 16],
               [p |-> <<56, 35>>, b |-> 8], [p |-> <<50, 35>>, b |-> 2], [p |-> <<48, 98>>, b |-> 2], [p |-> <<48, 66>>, b |-> 2] >>
DigitVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99

NotANumber == [ok |-> FALSE, v |-> Zero]
ParseDigits(u, b) ==
  LET signed == u # <<>> /\ u[1] \in {Plus, Minus}
      ds == IF signed THEN Drop(u, 1) ELSE u
  IN IF ds = <<>> \/ \E i \in DOMAIN ds : DigitVal(ds[i]) >= b THEN NotANumber
     ELSE LET v == FoldLeft(LAMBDA acc, c : Add(MulI(acc, b), Big(DigitVal(c))), Zero, ds)
          IN [ok |-> TRUE, v |-> IF signed /\ u[1] = Minus THEN Neg(v) ELSE v]
ParseInt(u, lo, hi) ==
  LET k == {i \in DOMAIN BasePrefixes : HasPrefix(u, BasePrefixes[i].p)}
      r == IF k = {} THEN ParseDigits(u, 10)
           ELSE LET i == CHOOSE i \in k : TRUE IN ParseDigits(Drop(u, Len(BasePrefixes[i].p)), BasePrefixes[i].b)
  IN IF r.ok /\ Within(r.v, lo, hi) THEN r ELSE NotANumber

(* --- decimal numbers: sign? digits? ( . digits? )? ( [eE] sign? digits )?   *)
(* [ok, neg, n, x]: value n * 10^x                                           *)
RECURSIVE Run(_, _)
Run(u, i) == IF i <= Len(u) /\ IsDigit(u[i]) THEN Run(u, i + 1) ELSE i      \* first index behind the digits from i
Values(u) == FromDec([i \in 1..Len(u) |-> u[i] - 48])
NoDecimal == [ok |-> FALSE, neg |-> FALSE, n |-> Zero, x |-> 0]
ExpDigits(u) == LET z == {i \in DOMAIN u : u[i] # 48} IN
                IF z = {} THEN 0 ELSE LET f == CHOOSE i \in z : \A j \in z : i <= j IN
                IF Len(u) - f + 1 > 6 THEN 1000000 ELSE FoldLeft(LAMBDA acc, c : acc * 10 + (c - 48), 0, Drop(u, f - 1))
Decimal(u) ==
  LET sg == u # <<>> /\ u[1] \in {Plus, Minus}
      a == IF sg THEN 2 ELSE 1
      b == Run(u, a)
      dot == b <= Len(u) /\ u[b] = Dot
      c == IF dot THEN Run(u, b + 1) ELSE b
      ip == SubSeq(u, a, b - 1)
      fp == IF dot THEN SubSeq(u, b + 1, c - 1) ELSE <<>>
      hasExp == c <= Len(u) /\ u[c] \in {69, 101}
      es == hasExp /\ c < Len(u) /\ u[c + 1] \in {Plus, Minus}
      ea == IF es THEN c + 2 ELSE c + 1
      eb == IF hasExp THEN Run(u, ea) ELSE c
      ev == IF hasExp THEN ExpDigits(SubSeq(u, ea, eb - 1)) ELSE 0
  IN IF ip \o fp = <<>> THEN NoDecimal
     ELSE IF hasExp /\ eb = ea THEN NoDecimal
     ELSE IF eb # Len(u) + 1 THEN NoDecimal
     ELSE [ok |-> TRUE, neg |-> sg /\ u[1] = Minus, n |-> Values(ip \o fp),
           x |-> (IF es /\ u[c + 1] = Minus THEN -ev ELSE ev) - Len(fp)]

(* decimal n * 10^x rounded to f gives x0                                    *)
NearestDec(f, x0, n, x) ==
  IF n = Zero THEN IsZero(x0)
  ELSE LET top == 4 * Len(n.m) + x IN           \* n < 10^(4 Len), value < 10^top
       IF top < -400 THEN IsZero(x0)
       ELSE IF top - 4 > 400 THEN IsInf(x0)
       ELSE IF x >= 0 THEN Nearest(f, x0, Mul(n, Pow10(x)), One) ELSE Nearest(f, x0, n, Pow10(-x))

(* --- reals as text ---------------------------------------------------------- *)
(* the text u writes the finite number x correctly rounded to six decimals,  *)
(* in fixed notation when |x| < 10^lim and else in scientific notation. A    *)
(* tie may go either way; a value that rounds to zero may carry a sign.      *)
AbsDiff2(a, b) == MulI(Abs(Sub(a, b)), 2)
RealText(u, x, lim) ==
  LET mag == Mag(x)
      neg == u # <<>> /\ u[1] = Minus
      w == IF neg THEN Drop(u, 1) ELSE u
      b == Run(w, 1)
      ip == SubSeq(w, 1, b - 1)
      c == IF b <= Len(w) /\ w[b] = Dot THEN Run(w, b + 1) ELSE b
      fp == SubSeq(w, b + 1, c - 1)
      fixed == Lt(mag.n, Mul(mag.d, Pow10(lim)))
      t == Values(ip \o fp)
      signOk == t = Zero \/ neg = x.neg
      wellFormed == ip # <<>> /\ (Len(ip) = 1 \/ ip[1] # 48) /\ c > b + 6 /\ Len(fp) = 6
  IN IF ~wellFormed THEN "not a decimal with six digits after the point"
     ELSE IF ~signOk THEN "wrong sign"
     ELSE IF fixed
     THEN IF c # Len(w) + 1 THEN "not in fixed notation"
          ELSE IF Leq(AbsDiff2(Mul(t, mag.d), Mul(Pow10(6), mag.n)), mag.d) THEN "ok" ELSE "not correctly rounded"
     ELSE LET es == c + 1 <= Len(w) /\ w[c] = 101 /\ w[c + 1] = Minus
              ea == IF es THEN c + 2 ELSE c + 1
              good == c < Len(w) /\ w[c] = 101 /\ Len(ip) = 1 /\ ip[1] # 48 /\ ea <= Len(w) /\ Run(w, ea) = Len(w) + 1
          IN IF ~good THEN "not in scientific notation"
             ELSE LET k == (IF es THEN -1 ELSE 1) * ExpDigits(Drop(w, ea - 1)) - 6 IN
                  IF k < 0 THEN "wrong exponent"
                  ELSE LET unit == Mul(Pow10(k), mag.d)
                           d2 == AbsDiff2(Mul(t, unit), mag.n)
                       IN IF ~Leq(d2, unit) THEN "not correctly rounded"
                          ELSE IF t = Pow10(6) /\ Lt(mag.n, Mul(t, unit)) /\ ~Leq(MulI(d2, 10), unit) THEN "not normalised"
                          ELSE "ok"
=============================================================================
